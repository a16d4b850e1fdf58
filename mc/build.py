#!/usr/bin/env python3
"""Build the code under test from /repo's current working tree for the model checker.

Variants (all in /verif/build/<variant>, never in /repo):
  mc     one shared object libicbd.so holding every server/*.c and pktserv/*.c, with the
         operating-system and heap calls redirected (objcopy --redefine-syms) to the
         virtual OS in mc/vos.cc.  Small tables (MAX_USERS/MAX_GROUPS from the command line).
  asan   the same, compiled by clang with -fsanitize=address,undefined; the harness keeps the shadow memory
         of the heap arena and of the server's stack as part of every state.
The configuration header is produced from /repo/cmake/config.h.in.
"""
import os, re, sys, subprocess, glob, hashlib, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

DEFS = dict(HAVE_FCNTL_H=1, HAVE_UNISTD_H=1, HAVE_STDARG_H=1, HAVE_TIME_H=1, HAVE_SYS_TIME_H=1,
            HAVE_SYS_SELECT_H=1, HAVE_GETHOSTNAME=1, HAVE_GETTIMEOFDAY=1, HAVE_SELECT=1,
            HAVE_SOCKET=1, HAVE_STRDUP=1, HAVE_STRERROR=1, HAVE_SNPRINTF=1, HAVE_SOCKLEN_T=1,
            HAVE_SSL=1, HAVE_SSL_CTX_SET_MIN_PROTO_VERSION=1)
ADMIN_PWD = "adm_pw"

# libc / libssl entry points the virtual OS provides (as v_<name>)
OS_SYMS = """poll ppoll select accept accept4 socket bind listen setsockopt getsockopt fcntl ioctl shutdown
close open open64 openat creat read write pread pwrite readv writev recv send recvfrom sendto recvmsg sendmsg
lseek lseek64 fstat stat lstat access fchmod chmod ftruncate fsync fdatasync sync
rename unlink remove link symlink mkdir rmdir mkstemp
fopen fopen64 fdopen freopen
getpeername getsockname getnameinfo getaddrinfo freeaddrinfo gethostbyname gethostbyaddr gethostname
time gettimeofday clock_gettime sleep usleep nanosleep alarm setitimer
fork vfork execve execv execvp execl system popen exit _exit _Exit abort kill raise
signal sigaction getrlimit setrlimit getpid getppid setsid daemon umask chdir getuid geteuid setuid
perror puts setbuf setlinebuf setvbuf""".split()
SSL_SYMS = """SSL_CTX_new SSL_CTX_free SSL_CTX_ctrl SSL_CTX_set_options SSL_CTX_set_cipher_list
SSL_CTX_set_verify SSL_CTX_use_certificate_file SSL_CTX_use_certificate_chain_file SSL_CTX_use_PrivateKey_file SSL_CTX_check_private_key
TLS_server_method SSL_new SSL_free SSL_set_fd SSL_accept SSL_read SSL_write SSL_pending SSL_get_error
SSL_shutdown SSL_want SSL_get_fd SSL_has_pending OPENSSL_init_ssl OPENSSL_init_crypto ERR_print_errors_cb ERR_get_error ERR_error_string ERR_clear_error
ERR_error_string_n ERR_peek_error""".split()
HEAP_SYMS = "malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf getline getdelim __getdelim dprintf vdprintf".split()
EXTRA = {"__isoc99_fscanf": None}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        raise SystemExit(3)
    return r.stdout

def gen_config(path, max_users, max_groups, extra=""):
    src = open(os.path.join(REPO, "cmake/config.h.in")).read()
    def repl(m):
        name, rest = m.group(1), m.group(2)
        if name in DEFS:
            return "#define %s%s" % (name, rest)
        return "/* #undef %s */" % name
    src = re.sub(r"^[ \t]*#[ \t]*cmakedefine[ \t]+(\w+)(.*)$", repl, src, flags=re.M)
    vals = dict(ADMIN_PWD=ADMIN_PWD, MAX_USERS=str(max_users), MAX_USERS_INT=str(max_users))
    src = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), str(DEFS.get(m.group(1), ""))), src)
    src += '\n#include "icb_config.h"\n'
    if max_groups:
        src += "#undef MAX_GROUPS\n#define MAX_GROUPS %d\n" % max_groups
    src += extra
    old = open(path).read() if os.path.exists(path) else None
    if old != src:
        open(path, "w").write(src)

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ("server", "pktserv", "cmake", "."):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.[ch]")) + glob.glob(os.path.join(REPO, d, "*.in"))):
            fs.append(f)
    for f in fs + [os.path.abspath(__file__)]:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def sources():
    s = sorted(glob.glob(os.path.join(REPO, "server/*.c"))) + sorted(glob.glob(os.path.join(REPO, "pktserv/*.c")))
    return s

def build_server(variant="mc", max_users=16, max_groups=12, extra="", only=None):
    """returns directory with libicbd.so"""
    name = "%s-u%d-g%d%s%s" % (variant, max_users, max_groups,
                               ("-" + hashlib.md5(extra.encode()).hexdigest()[:6]) if extra else "",
                               ("-" + hashlib.md5(" ".join(only).encode()).hexdigest()[:6]) if only else "")
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    gen_config(os.path.join(d, "config.h"), max_users, max_groups, extra)
    stamp = os.path.join(d, "stamp")
    key = tree_hash() + open(os.path.join(d, "config.h")).read() + repr(only)
    out = os.path.join(d, "libicbd.so")
    if os.path.exists(stamp) and os.path.exists(out) and open(stamp).read() == key:
        return d
    if os.path.exists(stamp): os.unlink(stamp)
    symmap = os.path.join(d, "syms.map")
    with open(symmap, "w") as f:
        for s in OS_SYMS + SSL_SYMS + HEAP_SYMS:
            f.write("%s v_%s\n" % (s, s))
        f.write("main icbd_main\n")
    srcs = [s for s in sources() if not only or os.path.relpath(s, REPO) in only]
    objs = []
    def one(src):
        o = os.path.join(d, os.path.relpath(src, REPO).replace("/", "_")[:-2] + ".o")
        cc = ["gcc"] if variant == "mc" else ["clang"]
        flags = ["-std=gnu99", "-w", "-g", "-fno-common", "-U_FORTIFY_SOURCE", "-fPIC", "-fno-builtin-malloc",
                 "-fno-stack-protector", "-DPKTSERV_INTERNAL",
                 "-I" + d, "-I" + REPO, "-I" + REPO + "/server", "-I" + REPO + "/pktserv"]
        flags += ["-O1"] if variant == "mc" else ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,function", "-fsanitize-recover=address,undefined", "-fno-omit-frame-pointer"]
        sh(cc + flags + ["-c", src, "-o", o])
        sh(["objcopy", "--redefine-syms=" + symmap, o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    if variant == "mc":
        sh(["gcc", "-shared", "-o", out, "-Wl,-z,now", "-Wl,-Bsymbolic"] + objs)
    else:
        sh(["clang", "-shared", "-o", out, "-Wl,-z,now", "-Wl,-Bsymbolic"] + objs)
    open(stamp, "w").write(key)
    return d

def build_exe(name, srcs, flags=(), libs=(), cxx="g++"):
    """compile a harness executable from /verif/mc sources (content-hashed)"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name)
    h = hashlib.sha256(repr((flags, libs, cxx)).encode())
    deps = [os.path.join(VERIF, "mc", s) if not s.startswith("/") else s for s in srcs]
    for f in deps + sorted(glob.glob(os.path.join(VERIF, "mc", "*.h*"))):
        h.update(open(f, "rb").read())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    tmp = out + ".objs"
    os.makedirs(tmp, exist_ok=True)
    def one(f):
        o = os.path.join(tmp, os.path.basename(f) + ".o")
        if f.endswith(".o"): return f
        sh([cxx, "-std=c++17", "-O2", "-g", "-w"] + list(flags) + ["-I" + os.path.join(VERIF, "mc"), "-c", f, "-o", o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, deps))
    sh([cxx, "-o", out] + list(flags) + objs + ["-rdynamic"] + list(libs))
    open(stamp, "w").write(h.hexdigest())
    return out

if __name__ == "__main__":
    print(build_server(*(sys.argv[1:2] or ["mc"])))

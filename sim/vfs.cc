#include "vfs.h"
#include "mem.h"
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <poll.h>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cerrno>
#include <climits>
#include <set>
#include <algorithm>

namespace sim { namespace vfs {
Faults F; std::vector<Fired> fired; int hard = 0; std::string cwd = "/"; bool as_root = true; int max_open = 0;
static Node root; static uint64_t next_ino = 2;
static const int FDB = 5000;
struct Open { Node n; int flags; off_t pos; std::string path; bool failed = false; off_t low = -1; int owner = 0; };   // low: where this opening wrote first
static std::map<int, Open> fds; static std::map<FILE*, int> files;
struct VDir { std::vector<std::string> names; std::vector<int> types; size_t i = 0; struct dirent d; std::string path; Node n; bool eio = false; };
static std::set<void*> dirs;

static Node mk(Type t, unsigned mode) { auto n = std::make_shared<Inode>(); n->type = t; n->mode = mode; n->ino = next_ino++; n->mtime = n->atime = g_now_ns + g_real_off_ns; return n; }
static void adopt(const Node& parent, const std::string& name, const Node& n) { n->dev = parent->dev; parent->kids[name] = n; }   // a new entry is on the device of its directory
static void ensure() { if (!root) { root = mk(DIR_, 0755); } }
void reset() { Scope s; root.reset(); fds.clear(); files.clear(); dirs.clear(); next_ino = 2; ensure(); cwd = "/"; F = Faults(); fired.clear(); hard = 0; as_root = true; max_open = 0; }
void faults_off() { F = Faults(); }
static std::vector<std::string> parts(const std::string& p) { std::vector<std::string> r; std::string c; for (char ch : p) { if (ch == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) r.push_back(c); return r; }
// walk; returns node, parent and last component
struct Walk { Node node, parent; std::string last; int err = 0; std::string full; };
static Walk walk(const std::string& path, bool follow, int depth = 0) {
  ensure(); Walk w; if (path.empty()) { w.err = ENOENT; return w; } if (depth > 20) { w.err = ELOOP; return w; }
  if (path.size() >= PATH_MAX) { w.err = ENAMETOOLONG; return w; }
  std::string abs = path[0] == '/' ? path : cwd + "/" + path; auto ps = parts(abs); std::vector<Node> st{root}; std::vector<std::string> nm;
  bool trail = !path.empty() && path.back() == '/';
  for (size_t i = 0; i < ps.size(); ++i) {
    Node c = st.back(); if (c->type != DIR_) { w.err = ENOTDIR; return w; }
    if (ps[i].size() > 255) { w.err = ENAMETOOLONG; return w; }
    if (ps[i] == ".") { continue; } if (ps[i] == "..") { if (st.size() > 1) { st.pop_back(); nm.pop_back(); } continue; }
    if (!as_root && !(c->mode & 0100)) { w.err = EACCES; return w; }
    auto it = c->kids.find(ps[i]); bool last = i + 1 == ps.size();
    if (it == c->kids.end()) { if (last) { w.parent = c; w.last = ps[i]; w.err = ENOENT; for (auto& x : nm) w.full += "/" + x; w.full += "/" + ps[i]; } else w.err = ENOENT; return w; }
    Node k = it->second;
    if (k->type == LINK_ && (!last || follow || trail)) {
      std::string base; for (auto& x : nm) base += "/" + x; std::string t = k->data[0] == '/' ? k->data : base + "/" + k->data;
      for (size_t j = i + 1; j < ps.size(); ++j) t += "/" + ps[j]; return walk(t, follow, depth + 1); }
    if (last) { w.parent = c; w.last = ps[i]; }
    st.push_back(k); nm.push_back(ps[i]);
  }
  w.node = st.back(); for (auto& x : nm) w.full += "/" + x; if (w.full.empty()) w.full = "/";
  if (trail && w.node->type != DIR_) { w.err = ENOTDIR; w.node.reset(); }
  return w;
}
Node lookup(const std::string& p, bool follow, int* err) { Scope s; Walk w = walk(p, follow); if (err) *err = w.err; return w.node; }
bool mkdirs(const std::string& path, unsigned mode) { Scope s; std::string c; bool ok = true; for (auto& x : parts(path)) { c += "/" + x; Walk w = walk(c, true); if (!w.node) { if (!w.parent) return false; adopt(w.parent, w.last, mk(DIR_, mode)); } else ok = w.node->type == DIR_; } return ok; }
bool put(const std::string& path, const std::string& d, unsigned mode) { Scope s; auto q = path.rfind('/'); if (q != std::string::npos && q > 0) mkdirs(path.substr(0, q)); Walk w = walk(path, true); if (w.node) { w.node->data = d; w.node->mode = mode; return w.node->type == FILE_; } if (!w.parent) return false; Node n = mk(FILE_, mode); n->data = d; adopt(w.parent, w.last, n); return true; }
bool put_hard(const std::string& path, const std::string& existing) { Scope s; auto q = path.rfind('/'); if (q != std::string::npos && q > 0) mkdirs(path.substr(0, q)); Walk w = walk(path, false); Node n = walk(existing, true).node; if (w.node || !w.parent || !n || n->type != FILE_ || n->dev != w.parent->dev) return false; w.parent->kids[w.last] = n; ++n->nlink; return true; }
bool put_link(const std::string& path, const std::string& t) { Scope s; auto q = path.rfind('/'); if (q != std::string::npos && q > 0) mkdirs(path.substr(0, q)); Walk w = walk(path, false); if (w.node || !w.parent) return false; Node n = mk(LINK_, 0777); n->data = t; adopt(w.parent, w.last, n); return true; }
bool get(const std::string& p, std::string* d) { Scope s; Walk w = walk(p, true); if (!w.node || w.node->type != FILE_) return false; if (d) *d = w.node->data; return true; }
bool exists(const std::string& p) { Scope s; return !!walk(p, false).node; }
bool remove_all(const std::string& p) { Scope s; Walk w = walk(p, false); if (!w.node || !w.parent) return false; w.parent->kids.erase(w.last); return true; }
static void dump_(const std::string& p, Node n, std::string& o) { o += p + (n->type == DIR_ ? " d" : n->type == LINK_ ? " l" : " f") + strf(" %o ", n->mode) + (n->type == DIR_ ? "" : quote(n->data, 4000)) + "\n"; for (auto& k : n->kids) dump_(p + "/" + k.first, k.second, o); }
std::string dump(const std::string& p) { Scope s; Walk w = walk(p, false); std::string o; if (w.node) dump_(p == "/" ? "" : p, w.node, o); return o; }
std::string phys(const std::string& p, bool follow) { Scope s; return walk(p, follow).full; }
static void snap_(const std::string& p, const Node& n, Snap& o) { o[p.empty() ? "/" : p] = Ent{n->type, n->mode, n->data, n->ino, n->mtime}; for (auto& k : n->kids) snap_(p + "/" + k.first, k.second, o); }
Snap snap(const std::string& path) { Scope s; Snap o; Walk w = walk(path, false); if (w.node) snap_(path == "/" ? "" : path, w.node, o); return o; }
static int64_t used_(Node n) { int64_t t = n->data.size(); for (auto& k : n->kids) t += used_(k.second); return t; }
int64_t used() { Scope s; ensure(); return used_(root); }
int open_fds() { return (int)fds.size(); }
bool virtual_fd(int fd) { return fds.count(fd) != 0; }
bool hard_on(const std::string& pre) { Scope s; for (auto& f : fired) if (f.kind.compare(0, 2, "t:") && f.path.compare(0, pre.size(), pre) == 0) return true; return false; }

static bool inject(uint32_t rate, const char* kind, const std::string& path, bool transient = false) {
  if (!rate || F.budget <= 0) return false;
  if (!transient && !F.only.empty() && path.compare(0, F.only.size(), F.only)) return false;
  if (!chance(rate)) return false;
  --F.budget; fault(kind); fired.push_back({std::string(transient ? "t:" : "") + kind, path}); if (!transient) ++hard; ev("    on %s", path.c_str()); return true;
}
static bool inject_forced(const char* kind, const std::string& path) { fault(kind); fired.push_back({kind, path}); ++hard; return true; }
void swarm(bool reads, bool writes, bool meta) {
  Scope s; auto r = [](uint32_t hi) { return chance(1, 2) ? 1 + choose(hi) : 0; };
  F.eintr = r(150); F.read_short = reads ? r(600) : 0; F.write_short = writes ? r(500) : 0;
  if (reads) { F.read_err = r(80); F.open_err = r(60); }
  if (writes) { F.write_err = r(150); F.close_err = r(150); F.open_err = r(60); if (chance(1, 6)) F.capacity = choose(3) ? choose(3000) : choose(200); }
  if (meta) { F.stat_err = r(40); F.access_err = r(40); F.mkdir_err = r(80); F.unlink_err = r(80); F.rmdir_err = r(80); F.readdir_err = r(60); F.opendir_err = r(60); F.chmod_err = r(60); F.rename_err = r(60); F.other_err = r(60); }
  F.budget = 1 + choose(6);
}
static int err_of(std::initializer_list<int> l) { std::vector<int> v(l); return v[choose((uint32_t)v.size())]; }

static int vopen(const char* path, int flags, unsigned mode) {
  std::string p(path); ev("    open(%s,%s)", path, (flags & O_ACCMODE) == O_RDONLY ? "r" : (flags & O_TRUNC) ? "w" : "w+");
  Walk w = walk(p, !(flags & O_NOFOLLOW)); std::string full = w.full.empty() ? p : w.full;
  if (inject(F.open_err, "open_error", full)) { errno = (flags & O_ACCMODE) == O_RDONLY ? err_of({EACCES, EMFILE, EIO, ENFILE}) : err_of({EACCES, ENOSPC, EROFS, EMFILE, EIO}); return -1; }
  int held = 0; for (auto& o : fds) held += !F.fd_per_thread || o.second.owner == self(); if (held >= F.fd_limit) { errno = EMFILE; return -1; }
  if (!w.node) {
    if (!(flags & O_CREAT) || !w.parent || w.err != ENOENT) { errno = w.err ? w.err : ENOENT; return -1; }
    if (!as_root && !(w.parent->mode & 0200)) { errno = EACCES; return -1; }
    w.node = mk(FILE_, mode & 0777); adopt(w.parent, w.last, w.node);
  } else {
    if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) { errno = EEXIST; return -1; }
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (w.node->type == DIR_ && wr) { errno = EISDIR; return -1; }
    if (!as_root && ((wr && !(w.node->mode & 0200)) || ((flags & O_ACCMODE) != O_WRONLY && !(w.node->mode & 0400)))) { errno = EACCES; return -1; }
    if ((flags & O_TRUNC) && wr) { w.node->data.clear(); w.node->mtime = g_now_ns + g_real_off_ns; }
  }
  int fd = FDB; while (fds.count(fd)) ++fd;
  fds[fd] = Open{w.node, flags, 0, full}; fds[fd].owner = self(); max_open = std::max<int>(max_open, fds.size()); return fd;
}
static ssize_t vread(int fd, void* b, size_t n) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } Open& o = it->second;
  if (inject(F.eintr, "EINTR_read", o.path, true)) { errno = EINTR; return -1; }
  if (o.n->type == DIR_) { errno = EISDIR; return -1; }
  if ((o.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (inject(F.read_err, "read_EIO", o.path)) { errno = EIO; return -1; }
  size_t av = o.pos < (off_t)o.n->data.size() ? o.n->data.size() - o.pos : 0; size_t k = std::min(n, av);
  if (k > 1 && inject(F.read_short, "short_read", o.path, true)) { k = 1 + choose((uint32_t)k - 1); ++F.budget; }
  memcpy(b, o.n->data.data() + o.pos, k); o.pos += k; o.n->atime = g_now_ns + g_real_off_ns; return k;
}
static ssize_t vwrite(int fd, const char* b, size_t n) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } Open& o = it->second;
  if ((o.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (inject(F.eintr, "EINTR_write", o.path, true)) { errno = EINTR; return -1; }
  if (n && inject(F.write_err, "write_error", o.path)) { errno = err_of({ENOSPC, EIO, EDQUOT}); o.failed = true; return -1; }
  size_t k = n;
  if (F.capacity >= 0) { int64_t freeb = F.capacity; if ((int64_t)k > freeb) { if (freeb == 0 && k) { inject_forced("disk_full", o.path); o.failed = true; errno = ENOSPC; return -1; } k = freeb; } F.capacity -= k; }
  else if (k > 1 && inject(F.write_short, "short_write", o.path, true)) { k = 1 + choose((uint32_t)k - 1); ++F.budget; }
  std::string& d = o.n->data; if (o.flags & O_APPEND) o.pos = d.size(); if ((size_t)o.pos > d.size()) d.resize(o.pos);
  if (o.pos + k > d.size()) d.resize(o.pos + k); if (k && (o.low < 0 || o.pos < o.low)) o.low = o.pos; memcpy(&d[o.pos], b, k); o.pos += k; o.n->mtime = g_now_ns + g_real_off_ns; return k;
}
static int vclose(int fd) {
  auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } Open o = it->second; fds.erase(it);
  if ((o.flags & O_ACCMODE) != O_RDONLY && inject(F.close_err, "close_error", o.path)) {
    // a deferred write error: the tail of the data never reached the disk
    if (o.low >= 0 && (off_t)o.n->data.size() > o.low) o.n->data.resize(o.low + choose((uint32_t)(o.n->data.size() - o.low))); errno = EIO; return -1; }
  return 0;
}
static off_t vseek(int fd, off_t off, int wh) { auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } Open& o = it->second; off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o.pos : (off_t)o.n->data.size(); if (b + off < 0) { errno = EINVAL; return -1; } o.pos = b + off; return o.pos; }
static void fillstat(const Node& n, struct stat* s) { memset(s, 0, sizeof *s); s->st_dev = n->dev; s->st_ino = n->ino; s->st_nlink = n->nlink; s->st_mode = n->mode | (n->type == DIR_ ? S_IFDIR : n->type == LINK_ ? S_IFLNK : S_IFREG); s->st_size = n->type == DIR_ ? 4096 : n->data.size(); s->st_blksize = 4096; s->st_mtim.tv_sec = n->mtime / 1000000000; s->st_mtim.tv_nsec = n->mtime % 1000000000; s->st_atim.tv_sec = n->atime / 1000000000; s->st_atim.tv_nsec = n->atime % 1000000000; s->st_ctim = s->st_mtim; s->st_ctim.tv_sec += 1000; }
static int vstat(const char* p, struct stat* s, bool follow) {
  Walk w = walk(p, follow); if (inject(F.stat_err, "stat_error", w.full.empty() ? p : w.full)) { errno = err_of({EACCES, EIO}); return -1; }
  if (!w.node) { errno = w.err; return -1; } fillstat(w.node, s); return 0; }
static int parse_mode(const char* m) { int f = 0; bool plus = strchr(m, '+'); switch (m[0]) { case 'r': f = plus ? O_RDWR : O_RDONLY; break; case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break; case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break; } if (strchr(m, 'x')) f |= O_EXCL; return f; }
static ssize_t ck_read(void* c, char* b, size_t n) { Scope s; return vread((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { Scope s; size_t done = 0; while (done < n) { ssize_t r = vwrite((int)(intptr_t)c, b + done, n - done); if (r < 0) { if (errno == EINTR) continue; return done ? (ssize_t)done : 0; } done += r; } return done; }
static int ck_seek(void* c, off64_t* o, int wh) { Scope s; off_t r = vseek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { Scope s; return vclose((int)(intptr_t)c); }
static FILE* vfopen(const char* p, const char* m) {
  int fd = vopen(p, parse_mode(m), 0644); if (fd < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; FILE* f = fopencookie((void*)(intptr_t)fd, m, io); if (!f) { int e = errno; fds.erase(fd); errno = e; return nullptr; }
  files[f] = fd; return f; }
}} // namespaces
using namespace sim; using namespace sim::vfs;
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) { ++g_depth; real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name); --g_depth; }
static inline bool on() { return g_active && g_depth == 0; }
#define ENTER() if (g_depth == 0) yield("io"); Scope sc_; 

extern "C" {
FILE* fopen(const char* p, const char* m) { if (on()) { ENTER(); return vfopen(p, m); } REAL(FILE*, fopen, const char*, const char*); return real_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { if (on()) { ENTER(); return vfopen(p, m); } REAL(FILE*, fopen64, const char*, const char*); return real_fopen64(p, m); }
int fileno(FILE* f) { if (g_active) { auto it = files.find(f); if (it != files.end()) return it->second; } REAL(int, fileno, FILE*); return real_fileno(f); }
int fclose(FILE* f) { if (g_active) { Scope s; files.erase(f); } REAL(int, fclose, FILE*); if (on()) yield("io"); Scope s; return real_fclose(f); }
int open(const char* p, int fl, ...) { unsigned mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); } if (on()) { ENTER(); return vopen(p, fl, mode); } return syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
int open64(const char* p, int fl, ...) { unsigned mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); } return open(p, fl, mode); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n) { if (fd >= FDB && g_active) { ssize_t k; { ENTER(); k = vread(fd, b, n); } if (k > 0) lib_access(b, (size_t)k, true, __builtin_return_address(0)); return k; } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (fd >= FDB && g_active) { lib_access(b, n, false, __builtin_return_address(0)); ENTER(); return vwrite(fd, (const char*)b, n); } return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fd >= FDB && g_active) { ENTER(); std::string all; for (int i = 0; i < c; ++i) all.append((char*)v[i].iov_base, v[i].iov_len); return vwrite(fd, all.data(), all.size()); }
  return syscall(SYS_writev, fd, v, c); }
int close(int fd) { if (fd >= FDB && g_active) { ENTER(); return vclose(fd); } return syscall(SYS_close, fd); }
off_t lseek(int fd, off_t o, int w) { if (fd >= FDB && g_active) { Scope s; return vseek(fd, o, w); } return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fsync(int fd) { if (fd >= FDB && g_active) return 0; return syscall(SYS_fsync, fd); }
int ftruncate(int fd, off_t n) { if (fd >= FDB && g_active) { Scope s; fds[fd].n->data.resize(n); return 0; } return syscall(SYS_ftruncate, fd, n); }
int fstat(int fd, struct stat* st) { if (fd >= FDB && g_active) { Scope s; auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } fillstat(it->second.n, st); return 0; } return syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) { if (on()) { ENTER(); return vstat(p, st, true); } return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (on()) { ENTER(); return vstat(p, st, false); } return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int access(const char* p, int m) { if (on()) { ENTER(); Walk w = walk(p, true); if (inject(F.access_err, "access_error", w.full.empty() ? p : w.full)) { errno = err_of({EACCES, EIO}); return -1; } if (!w.node) { errno = w.err; return -1; }
    if (!as_root && (((m & R_OK) && !(w.node->mode & 0400)) || ((m & W_OK) && !(w.node->mode & 0200)) || ((m & X_OK) && !(w.node->mode & 0100)))) { errno = EACCES; return -1; } 
    if (as_root && (m & X_OK) && w.node->type == FILE_ && !(w.node->mode & 0111)) { errno = EACCES; return -1; } return 0; } return syscall(SYS_faccessat, AT_FDCWD, p, m); }
int mkdir(const char* p, mode_t m) { if (on()) { ENTER(); Walk w = walk(p, false); if (inject(F.mkdir_err, "mkdir_error", w.full.empty() ? p : w.full)) { errno = err_of({EACCES, ENOSPC, EIO, EROFS}); return -1; } if (w.node) { errno = EEXIST; return -1; } if (!w.parent || w.err != ENOENT) { errno = w.err; return -1; } if (!as_root && !(w.parent->mode & 0200)) { errno = EACCES; return -1; } adopt(w.parent, w.last, mk(DIR_, m & 0777)); return 0; } return syscall(SYS_mkdir, p, m); }
int rmdir(const char* p) { if (on()) { ENTER(); Walk w = walk(p, false); ev("    rmdir(%s)", p); if (inject(F.rmdir_err, "rmdir_error", w.full.empty() ? p : w.full)) { errno = err_of({EACCES, EBUSY, EIO}); return -1; } if (!w.node) { errno = w.err; return -1; } if (w.node->type != DIR_) { errno = ENOTDIR; return -1; } if (!w.node->kids.empty()) { errno = ENOTEMPTY; return -1; } if (!w.parent) { errno = EBUSY; return -1; } if (!as_root && !(w.parent->mode & 0200)) { errno = EACCES; return -1; } w.parent->kids.erase(w.last); return 0; } return syscall(SYS_rmdir, p); }
int unlink(const char* p) { if (on()) { ENTER(); Walk w = walk(p, false); ev("    unlink(%s)", p); if (inject(F.unlink_err, "unlink_error", w.full.empty() ? p : w.full)) { errno = err_of({EACCES, EBUSY, EIO}); return -1; } if (!w.node) { errno = w.err; return -1; } if (w.node->type == DIR_) { errno = EISDIR; return -1; } if (!as_root && !(w.parent->mode & 0200)) { errno = EACCES; return -1; } w.node->nlink--; w.parent->kids.erase(w.last); return 0; } return syscall(SYS_unlink, p); }
int remove(const char* p) { if (on()) { struct stat st; if (lstat(p, &st)) return -1; return S_ISDIR(st.st_mode) ? rmdir(p) : unlink(p); } REAL(int, remove, const char*); return real_remove(p); }
int rename(const char* a, const char* b) { if (on()) { ENTER(); Walk x = walk(a, false), y = walk(b, false); if (inject(F.rename_err, "rename_error", x.full)) { errno = EIO; return -1; } if (!x.node) { errno = x.err; return -1; } if (!y.parent) { errno = y.err; return -1; } Node n = x.node; if (n->dev != y.parent->dev) { errno = EXDEV; return -1; } x.parent->kids.erase(x.last); y.parent->kids[y.last] = n; return 0; } return syscall(SYS_rename, a, b); }
int chmod(const char* p, mode_t m) { if (on()) { ENTER(); Walk w = walk(p, true); if (inject(F.chmod_err, "chmod_error", w.full.empty() ? p : w.full)) { errno = err_of({EPERM, EIO}); return -1; } if (!w.node) { errno = w.err; return -1; } w.node->mode = m & 07777; return 0; } return syscall(SYS_chmod, p, m); }
int symlink(const char* t, const char* p) { if (on()) { ENTER(); Walk w = walk(p, false); if (inject(F.other_err, "symlink_error", p)) { errno = EIO; return -1; } if (w.node) { errno = EEXIST; return -1; } if (!w.parent) { errno = w.err; return -1; } Node n = mk(LINK_, 0777); n->data = t; adopt(w.parent, w.last, n); return 0; } return syscall(SYS_symlink, t, p); }
ssize_t readlink(const char* p, char* b, size_t n) { if (on()) { ENTER(); Walk w = walk(p, false); if (inject(F.other_err, "readlink_error", p)) { errno = EIO; return -1; } if (!w.node) { errno = w.err; return -1; } if (w.node->type != LINK_) { errno = EINVAL; return -1; } size_t k = std::min(n, w.node->data.size()); memcpy(b, w.node->data.data(), k); return k; } return syscall(SYS_readlink, p, b, n); }
int utimensat(int dfd, const char* p, const struct timespec t[2], int fl) { if (on()) { ENTER(); Walk w = walk(p, !(fl & AT_SYMLINK_NOFOLLOW)); if (inject(F.other_err, "utime_error", p)) { errno = EACCES; return -1; } if (!w.node) { errno = w.err; return -1; } int64_t now = g_now_ns + g_real_off_ns; auto v = [&](const struct timespec& x, int64_t old) { return x.tv_nsec == UTIME_NOW ? now : x.tv_nsec == UTIME_OMIT ? old : x.tv_sec * 1000000000ll + x.tv_nsec; }; w.node->atime = t ? v(t[0], w.node->atime) : now; w.node->mtime = t ? v(t[1], w.node->mtime) : now; return 0; } return syscall(SYS_utimensat, dfd, p, t, fl); }
int utimes(const char* p, const struct timeval t[2]) { struct timespec s[2] = {{t[0].tv_sec, t[0].tv_usec * 1000}, {t[1].tv_sec, t[1].tv_usec * 1000}}; return utimensat(AT_FDCWD, p, s, 0); }
int chdir(const char* p) { if (on()) { ENTER(); Walk w = walk(p, true); if (inject(F.other_err, "chdir_error", p)) { errno = EACCES; return -1; } if (!w.node) { errno = w.err; return -1; } if (w.node->type != DIR_) { errno = ENOTDIR; return -1; } cwd = w.full; return 0; } return syscall(SYS_chdir, p); }
char* getcwd(char* b, size_t n) { if (on()) { std::string c; { ENTER(); if (inject(F.other_err, "getcwd_error", cwd)) { errno = err_of({ENOENT, EACCES}); return nullptr; } c = cwd; if (b && c.size() + 1 > n) { errno = ERANGE; return nullptr; } if (b) { strcpy(b, c.c_str()); return b; } } char* r = (char*)malloc(n ? n : c.size() + 1); if (r) strcpy(r, c.c_str()); return r; } REAL(char*, getcwd, char*, size_t); return real_getcwd(b, n); }
char* realpath(const char* p, char* out) { if (on()) { std::string full; { ENTER(); Walk w = walk(p, true); if (inject(F.other_err, "realpath_error", p)) { errno = EACCES; return nullptr; } if (!w.node) { errno = w.err; return nullptr; } full = w.full; } if (!out) { out = (char*)malloc(PATH_MAX); if (!out) return nullptr; } strcpy(out, full.c_str()); return out; } REAL(char*, realpath, const char*, char*); return real_realpath(p, out); }
DIR* opendir(const char* p) { if (on()) { ENTER(); Walk w = walk(p, true); if (inject(F.opendir_err, "opendir_error", w.full.empty() ? p : w.full)) { errno = err_of({EACCES, EMFILE, ENOMEM}); return nullptr; } if (!w.node) { errno = w.err; return nullptr; } if (w.node->type != DIR_) { errno = ENOTDIR; return nullptr; } if (!as_root && !(w.node->mode & 0400)) { errno = EACCES; return nullptr; }
    VDir* d = new VDir; d->path = w.full; d->n = w.node; d->names = {".", ".."}; d->types = {DT_DIR, DT_DIR}; for (auto& k : w.node->kids) { d->names.push_back(k.first); d->types.push_back(k.second->type == DIR_ ? DT_DIR : k.second->type == LINK_ ? DT_LNK : DT_REG); } 
    uint32_t rot = choose(3); if (rot && d->names.size() > 2) { std::rotate(d->names.begin(), d->names.begin() + rot, d->names.end()); std::rotate(d->types.begin(), d->types.begin() + rot, d->types.end()); }
    dirs.insert(d); return (DIR*)d; } REAL(DIR*, opendir, const char*); return real_opendir(p); }
static struct dirent* vreaddir(VDir* d) { for (;;) { if (inject(F.readdir_err, "readdir_error", d->path)) { errno = EIO; return nullptr; } if (d->i >= d->names.size()) return nullptr; size_t i = d->i++; const std::string& nm = d->names[i]; if (nm != "." && nm != ".." && !d->n->kids.count(nm)) continue; memset(&d->d, 0, sizeof d->d); d->d.d_ino = 1; d->d.d_type = d->types[i]; strncpy(d->d.d_name, nm.c_str(), sizeof d->d.d_name - 1); return &d->d; } }
struct dirent* readdir(DIR* d) { if (g_active && dirs.count(d)) { ENTER(); return vreaddir((VDir*)d); } REAL(struct dirent*, readdir, DIR*); return real_readdir(d); }
struct dirent64* readdir64(DIR* d) { if (g_active && dirs.count(d)) { ENTER(); return (struct dirent64*)vreaddir((VDir*)d); } REAL(struct dirent64*, readdir64, DIR*); return real_readdir64(d); }
int closedir(DIR* d) { if (g_active && dirs.count(d)) { ENTER(); dirs.erase(d); delete (VDir*)d; return 0; } REAL(int, closedir, DIR*); return real_closedir(d); }
int ioctl(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap); if (fd >= FDB && g_active) { Scope s; if (r == FIONREAD) { auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; } *(int*)a = (int)std::max<off_t>(0, (off_t)it->second.n->data.size() - it->second.pos); return 0; } errno = ENOTTY; return -1; } return syscall(SYS_ioctl, fd, r, a); }
int isatty(int fd) { if (fd >= FDB && g_active) { errno = ENOTTY; return 0; } REAL(int, isatty, int); return real_isatty(fd); }
}
namespace sim { namespace vfs { int open_dirs() { return (int)dirs.size(); } }}

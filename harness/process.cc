// Child-process management (ProcessUNIX.c) on a simulated kernel: processes, pipes, signals, clock.
// The parent and the not yet exec'd children run the real code on one simulated address space each
// (stack, heap and static data are swapped at every switch); exec'd programs are scripted actors.
#include "h.h"
#include <kwiversys/Process.h>
#include <memory>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <fcntl.h>
#include <dirent.h>
#include <poll.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <cmath>
using namespace h;
extern "C" void sim_switch(void** save_sp, void* new_sp);
extern "C" char __start_procdata[] __attribute__((weak)), __stop_procdata[] __attribute__((weak)), __start_procbss[] __attribute__((weak)), __stop_procbss[] __attribute__((weak));
namespace {
typedef int64_t ns; const ns US = 1000, MS = 1000000, SEC = 1000000000;
// ------------------------------------------------------------------ kernel objects
struct Pipe { std::string buf, log; size_t cap; int nr = 0, nw = 0; };
struct File { std::string data; };
enum Kind { PR, PW, FI, TTY };
struct Desc { Kind k; std::shared_ptr<Pipe> p; std::shared_ptr<File> f; size_t pos = 0; bool nonblock = false, wr = false; std::string name; ~Desc() { if (k == PR) --p->nr; if (k == PW) --p->nw; } };
typedef std::shared_ptr<Desc> D;
struct Fd { D d; bool cloexec; };
enum OpK { WRITE, CAT, READALL, SLEEP, EXITOP, RAISE, CLOSE, SPAWN, WAITK, FOREVER, SETSID, IGN };
struct Script; typedef std::shared_ptr<Script> ScriptP;
struct Op { OpK k; int a; std::string data; ns t; ScriptP child; };
struct Script { std::vector<Op> ops; };
enum St { RUN, STOPPED, ZOMBIE };
struct Image { std::string stk, heap, data, bss; };
struct Proc {
  int pid, ppid, pgid, sid, uid; St st = RUN; int status = 0; std::map<int, Fd> fds; struct sigaction act[65]; uint64_t mask = 0, pending = 0; std::string cwd, name;
  bool real = false; void* sp = nullptr; Image img; int err = 0, depth = 1, forkret = 0; std::function<bool()> ready; ns wake = -1; bool fresh = false;
  ScriptP script; size_t pc = 0, off = 0; std::string buf; bool eof = false; ns until = -1;
  int obj = -1, cmd = -1; bool stranger = false; };
struct Rec { int pid = 0, parent = 0, obj = -1, cmd = -1; bool exited = false, by_tester = false, execed = false; int status = 0; std::string name; };   // history, by uid
typedef std::unique_ptr<Proc> ProcP;
std::map<int, ProcP> procs; std::vector<Rec> recs; std::vector<int> freed; int next_pid; Proc* cur; Proc* loaded; Proc* tester; bool tester_done; int tester_status; bool want_fork; std::map<std::string, std::shared_ptr<File>> files; std::set<std::string> dirs; std::shared_ptr<Pipe> last_exec;
void* kernel_sp; char* stk_lo; const size_t STK = 512 << 10; char* stk_hi; ns stalled; int hard_faults; bool reuse_pids, sigs_async; int in_handler; const ns EPOCH = 1600000000ll * SEC + 999990 * US;
struct Fault { int pipe, fork, fcntl, exec, setsid, chdir, getcwd, open, opendir, procfs, popen, select, spurious, eintr, shrt, kill_middle; int budget; } F;
std::map<std::string, int> fired;
bool inject(int per_mille, const char* kind, bool soft = false) { if (per_mille <= 0 || (!soft && F.budget <= 0) || !chance(per_mille)) return false; if (!soft) { --F.budget; ++hard_faults; } fault(kind); fired[kind]++; ev("  !fault %s", kind); return true; }
// what an object of the driver is supposed to run; filled in by the driver, checked by the kernel
struct Cmd { std::vector<std::string> argv; ScriptP script; std::string prog; int uid = -1; };
struct Obj { kwiversysProcess* cp = nullptr; int id = 0; std::vector<Cmd> cmds; bool detach = false, merge = false, group = false; std::string wd; int in = 0, out = 0, err = 0; std::string fin, fout, ferr; D nin, nout, nerr; int ninfd[2], noutfd[2], nerrfd[2]; double timeout = 0;
  ns t0 = 0; std::shared_ptr<Pipe> outp, errp; std::string got[2]; bool ended = false, killed = false, expired = false, ignored = false, interrupted = false, finished = false, disowned = false, stolen = false, stealing = false; int started = 0, uid0 = 0; };
std::vector<std::unique_ptr<Obj>> objs; int cur_obj = -1; int handler_obj_ok; std::string tty_out, tty_err;
bool sigint_at_reap; uint64_t mask0; std::vector<std::pair<ns, int>> external;   // signals that hit the parent at some time
const char* wh = "";

Proc* find(int pid) { auto i = procs.find(pid); return i == procs.end() ? nullptr : i->second.get(); }
int new_pid() { if (reuse_pids && !freed.empty() && chance(700)) { for (size_t i = freed.size(); i-- > 0;) { int p = freed[i]; bool busy = procs.count(p); for (auto& q : procs) if (q.second->pgid == p || q.second->sid == p) busy = true; if (!busy) { freed.erase(freed.begin() + i); probe("pid_reused"); return p; } } } while (procs.count(next_pid)) ++next_pid; return next_pid++; }
Proc* make(int ppid) { int pid = new_pid(); ProcP p(new Proc); p->pid = pid; p->ppid = ppid; p->uid = (int)recs.size(); memset(p->act, 0, sizeof p->act); Proc* parent = find(ppid); Rec r; r.pid = pid; r.parent = parent ? parent->uid : -1; recs.push_back(r); Proc* q = p.get(); procs[pid] = std::move(p); return q; }
std::vector<ProcP> graveyard;   // callers up the stack may still refer to a vanished process
void vanish(int pid) { freed.push_back(pid); auto i = procs.find(pid); if (i == procs.end()) return; graveyard.push_back(std::move(i->second)); procs.erase(i); }
void post(Proc* p, int sig, Proc* from);
void die(Proc* p, int status) {
  Rec& r = recs[p->uid]; r.exited = true; r.status = status; ev("    [%d] %s ends, status 0x%x", p->pid, p->name.c_str(), status); p->status = status; p->fds.clear(); p->script.reset(); p->ready = nullptr; p->st = ZOMBIE; p->img = Image(); if (p == loaded) loaded = nullptr;
  if (p == tester) { tester_status = status; return; }
  std::vector<int> gone; for (auto& q : procs) if (q.second->ppid == p->pid) { q.second->ppid = 1; if (q.second->st == ZOMBIE) gone.push_back(q.first); } for (int g : gone) vanish(g);
  Proc* pa = find(p->ppid); if (p->ppid == 1 || !pa) { vanish(p->pid); return; }
  if (pa->act[SIGCHLD].sa_handler == SIG_IGN && pa->real) { int pid = p->pid; post(pa, SIGCHLD, nullptr); vanish(pid); return; }
  post(pa, SIGCHLD, nullptr); }
bool handled(Proc* p, int s) { return p->act[s].sa_handler != SIG_DFL && p->act[s].sa_handler != SIG_IGN; }
bool dfl_ignores(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
void default_action(Proc* p, int s) { if (dfl_ignores(s)) return; if (s == SIGTSTP || s == SIGTTIN || s == SIGTTOU || s == SIGSTOP) { if (p->st == RUN) p->st = STOPPED; return; } die(p, s | ((s == SIGSEGV || s == SIGABRT || s == SIGFPE || s == SIGILL || s == SIGBUS || s == SIGQUIT || s == SIGTRAP || s == SIGSYS || s == SIGXCPU || s == SIGXFSZ) && p->uid % 2 ? 0x80 : 0)); }
void post(Proc* p, int s, Proc* from) {
  if (p->st == ZOMBIE) return; if (from && from == tester && s == SIGKILL) recs[p->uid].by_tester = true;
  if (s == SIGKILL) { die(p, SIGKILL); return; } if (s == SIGSTOP) { p->st = STOPPED; return; } if (s == SIGCONT && p->st == STOPPED) p->st = RUN;
  if (p->act[s].sa_handler == SIG_IGN) return; if (!handled(p, s) && dfl_ignores(s)) return;
  if ((p->mask >> s & 1) || handled(p, s) || p == cur || p->st == STOPPED) { p->pending |= 1ull << s; return; } default_action(p, s); }
uint64_t deliverable(Proc* p) { return p->pending & ~p->mask; }

// ------------------------------------------------------------------ real-code contexts
void save_image(Proc* p) { alloc_save(&p->img.heap); p->img.stk.assign((char*)p->sp, stk_hi - (char*)p->sp); p->img.data.assign(__start_procdata, __stop_procdata - __start_procdata); p->img.bss.assign(__start_procbss, __stop_procbss - __start_procbss); }
void load_image(Proc* p) { alloc_load(p->img.heap); memcpy(stk_hi - p->img.stk.size(), p->img.stk.data(), p->img.stk.size()); memcpy(__start_procdata, p->img.data.data(), p->img.data.size()); memcpy(__start_procbss, p->img.bss.data(), p->img.bss.size()); }
void to_kernel() { Proc* me = cur; me->err = errno; me->depth = g_depth; sim_switch(&me->sp, kernel_sp); errno = cur->err; }   // comes back in cur, with its own stack
void run_real(Proc* p) { if (loaded && loaded != p) save_image(loaded); if (loaded != p) load_image(p); loaded = p; cur = p; int d = g_depth; g_depth = p->depth; sim_switch(&kernel_sp, p->sp); g_depth = d; 
  if (want_fork) { want_fork = false; Proc* c = find(p->forkret); if (p->st != ZOMBIE) { save_image(p); if (c) { c->img = p->img; c->sp = p->sp; c->err = p->err; c->depth = p->depth; c->fresh = false; } } }
  cur = nullptr; if (p != tester && p->st == ZOMBIE) {} }
void user_handler(int s);
// processes that must not outlive the parent's handling of SIGINT or SIGTERM: groups led by a child that was not waited for yet
std::vector<int> doomed;
void doom() { doomed.clear(); for (auto& q : procs) { Proc* l = q.second.get(); if (l->ppid != tester->pid || l->obj < 0 || l->cmd < 0 || l->pgid != l->pid || !objs[l->obj]->group || objs[l->obj]->detach || objs[l->obj]->killed) continue; for (auto& x : procs) if (x.second->pgid == l->pid && x.second->st != ZOMBIE && x.second->act[SIGINT].sa_handler == SIG_DFL && !(x.second->mask >> SIGINT & 1)) doomed.push_back(x.second->uid); } }
void deliver() { for (;;) { Proc* me = cur; if (me->st == ZOMBIE) { for (;;) to_kernel(); } uint64_t d = deliverable(me); if (!d) return; int s = __builtin_ctzll(d); me->pending &= ~(1ull << s);
    if (me->act[s].sa_handler == SIG_IGN) continue; if (!handled(me, s)) { default_action(me, s); if (me->st != RUN) to_kernel(); continue; }
    struct sigaction a = me->act[s]; uint64_t om = me->mask; me->mask |= 1ull << s; for (int k = 1; k < 64; ++k) if (sigismember(&a.sa_mask, k)) me->mask |= 1ull << k; int e = errno; ev("    [%d] handles signal %d", me->pid, s); siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; count("signals_handled"); if (a.sa_flags & SA_RESETHAND) me->act[s].sa_handler = SIG_DFL; 
    int e2; if (me == tester && (s == SIGINT || s == SIGTERM) && a.sa_handler != user_handler) doom(); ++in_handler; { Unscope u; errno = e; if (a.sa_flags & SA_SIGINFO) a.sa_sigaction(s, &si, nullptr); else a.sa_handler(s); e2 = errno; } --in_handler; if (cur == tester) REQUIRE(e2 == e, "errno-changed", "the handler of signal %d changes errno of the interrupted code from %d to %d", s, e, e2); errno = e; cur->mask = om; } }
void tick() { g_now_ns += 3 * US; if (++g_steps > g_step_cap) violation("no-progress", "%s does not end", wh); }
void preempt_point() { if (chance(120)) { if (chance(30)) { ns d = range(1, 20) * MS; g_now_ns += d; stalled += d; count("stalls"); } to_kernel(); } }
void arm_hook() { g_hook_at = sigs_async ? g_steps + 1 + choose(600) : ~0ull; }
void hook() { if (!cur) return; ++g_depth; int e = errno; if (!chance(300)) to_kernel(); deliver(); errno = e; arm_hook(); --g_depth; }
struct Sys { Sys(const char*) { ++g_depth; tick(); preempt_point(); deliver(); } ~Sys() { int e = errno; deliver(); errno = e; --g_depth; } };
// blocks until ready; 1 ready, 0 deadline, -1 interrupted
int block(std::function<bool()> ready, ns deadline, bool restartable) {
  bool first = true; for (;;) { Proc* me = cur; if (ready()) return 1; if (deadline >= 0 && g_now_ns >= deadline) return 0;
    if (deliverable(me)) { bool h = false, restart = restartable; for (int s = 1; s < 64; ++s) if ((deliverable(me) >> s & 1) && handled(me, s)) { h = true; if (!(me->act[s].sa_flags & SA_RESTART)) restart = false; } deliver(); if (h && !restart) return -1; if (h) continue; }
    if (!first || me != tester || true) { if (first && inject(F.eintr, "EINTR", true)) return -1; } first = false;
    me->ready = ready; me->wake = deadline; to_kernel(); cur->ready = nullptr; cur->wake = -1; } }

// ------------------------------------------------------------------ actors
bool can_write(Desc& d) { return d.k != PW || d.p->nr == 0 || d.p->buf.size() < d.p->cap; }
bool can_read(Desc& d) { return d.k != PR || !d.p->buf.empty() || d.p->nw == 0; }
ssize_t put(Desc& d, const char* b, size_t n) { // bytes written; -1 broken pipe
  if (d.k == PW) { if (d.p->nr == 0) return -1; size_t k = std::min(n, d.p->cap - d.p->buf.size()); d.p->buf.append(b, k); d.p->log.append(b, k); return k; }
  if (d.k == FI) { if (d.f->data.size() < d.pos) d.f->data.resize(d.pos); d.f->data.replace(d.pos, std::min(n, d.f->data.size() - d.pos), b, n); d.pos += n; return n; }
  if (d.k == TTY) { (d.name == "tty2" ? tty_err : tty_out).append(b, n); return n; } return -1; }
ssize_t get(Desc& d, char* b, size_t n) { if (d.k == PR) { size_t k = std::min(n, d.p->buf.size()); memcpy(b, d.p->buf.data(), k); d.p->buf.erase(0, k); return k; } if (d.k == FI) { if (d.pos >= d.f->data.size()) return 0; size_t k = std::min(n, d.f->data.size() - d.pos); memcpy(b, d.f->data.data() + d.pos, k); d.pos += k; return k; } return 0; }
Desc* fdof(Proc* p, int fd) { auto i = p->fds.find(fd); return i == p->fds.end() ? nullptr : i->second.d.get(); }
bool actor_ready(Proc* p) {
  if (p->pc >= p->script->ops.size()) return true; Op& o = p->script->ops[p->pc]; Desc* d;
  switch (o.k) { case WRITE: d = fdof(p, o.a); return !d || can_write(*d); case CAT: if (!p->buf.empty()) { d = fdof(p, 1); return !d || can_write(*d); } d = fdof(p, 0); return !d || can_read(*d); case READALL: d = fdof(p, 0); return !d || can_read(*d);
    case SLEEP: if (p->until < 0) p->until = g_now_ns + o.t; return g_now_ns >= p->until; case FOREVER: return false; case WAITK: { bool any = false; for (auto& q : procs) if (q.second->ppid == p->pid) { any = true; if (q.second->st == ZOMBIE) return true; } return !any; } default: return true; } }
void broken(Proc* p) { if (p->act[SIGPIPE].sa_handler == SIG_IGN) { ++p->pc; p->off = 0; p->buf.clear(); } else die(p, SIGPIPE); }
void actor_step(Proc* p) {
  tick(); if (p->pc >= p->script->ops.size()) { die(p, 0); return; } Op& o = p->script->ops[p->pc]; Desc* d;
  switch (o.k) {
    case WRITE: { d = fdof(p, o.a); if (!d) { ++p->pc; return; } size_t n = o.data.size() - p->off; if (n > 1 && chance(300)) n = 1 + choose((uint32_t)n); ssize_t k = n ? put(*d, o.data.data() + p->off, n) : 0; if (k < 0) { broken(p); return; } p->off += k; if (p->off >= o.data.size()) { p->off = 0; ++p->pc; } return; }
    case CAT: { if (!p->buf.empty()) { d = fdof(p, 1); if (!d) { p->buf.clear(); return; } ssize_t k = put(*d, p->buf.data(), p->buf.size()); if (k < 0) { broken(p); return; } p->buf.erase(0, k); return; } d = fdof(p, 0); if (!d) { ++p->pc; return; } char b[4096]; size_t n = sizeof b; if (chance(200)) n = 1 + choose(64); ssize_t k = get(*d, b, n); if (k == 0) ++p->pc; else p->buf.assign(b, k); return; }
    case READALL: { d = fdof(p, 0); char b[4096]; ssize_t k = d ? get(*d, b, sizeof b) : 0; if (k == 0) ++p->pc; return; }
    case SLEEP: p->until = -1; ++p->pc; return;
    case EXITOP: die(p, (o.a & 0xff) << 8); return;
    case RAISE: { int s = o.a; ++p->pc; if (p->act[s].sa_handler == SIG_IGN) return; default_action(p, s); return; }
    case CLOSE: p->fds.erase(o.a); ++p->pc; return;
    case SPAWN: { ++p->pc; Proc* c = make(p->pid); c->pgid = p->pgid; c->sid = p->sid; c->fds = p->fds; memcpy(c->act, p->act, sizeof c->act); c->mask = p->mask; c->cwd = p->cwd; c->name = chance(600) ? p->name + "+" : pick(std::vector<std::string>{"a) b", ") R 1 1", "my tool", "x (y", "((", "))", "1 2 3", "S"}); c->obj = p->obj; c->stranger = p->stranger; c->script = o.child; recs[c->uid].obj = p->obj; recs[c->uid].name = c->name; ev("    [%d] spawns [%d]", p->pid, c->pid); return; }
    case WAITK: for (auto& q : procs) if (q.second->ppid == p->pid && q.second->st == ZOMBIE) { vanish(q.first); return; } ++p->pc; return;
    case SETSID: p->pgid = p->sid = p->pid; ++p->pc; return;
    case IGN: p->act[o.a].sa_handler = SIG_IGN; ++p->pc; return;
    case FOREVER: return; } }

// ------------------------------------------------------------------ scheduler
bool real_ready(Proc* p) { if (!p->ready) return true; if (p->ready()) return true; if (p->wake >= 0 && g_now_ns >= p->wake) return true; uint64_t d = deliverable(p); for (int s = 1; s < 64; ++s) if (d >> s & 1) { if (handled(p, s) || (p->act[s].sa_handler == SIG_DFL && !dfl_ignores(s))) return true; } return false; }
void kernel_loop() {
  for (uint64_t n = 0;; ++n) {
    if (tester_done || tester->st == ZOMBIE) return; if (n > 400000) violation("no-progress", "%s does not end", wh);
    for (size_t i = 0; i < external.size(); ++i) if (external[i].first <= g_now_ns) { int s = external[i].second; external.erase(external.begin() + i); ev("  signal %d from outside", s); post(tester, s, nullptr); if (tester->st == ZOMBIE) return; break; }
    Proc* c[64]; int k = 0; if (tester->st == RUN && real_ready(tester)) c[k++] = tester;
    for (auto& q : procs) { Proc* p = q.second.get(); if (p == tester || p->st != RUN || k == 64) continue; if (p->real ? real_ready(p) : actor_ready(p)) c[k++] = p; }
    if (!k) { ns t = -1; auto upd = [&](ns x) { if (x >= 0 && (t < 0 || x < t)) t = x; }; for (auto& q : procs) if (q.second->st == RUN) { if (q.second->real) upd(q.second->wake); else upd(q.second->until); } for (auto& e : external) upd(e.first); if (t < 0) violation("hang", "%s blocks for ever: nothing can happen any more", wh); if (t > g_now_ns) g_now_ns = t; continue; }
    Proc* p = c[k > 1 ? choose(k) : 0]; unsigned char hh = (unsigned char)(p->pid & 255); note_hash(&hh, 1); if (p->real) run_real(p); else actor_step(p); } }

// ------------------------------------------------------------------ checks at exec and kill
std::string desc(const D& d) { if (!d) return "nothing"; return strf("%s%s", d->k == PR ? "read end of a pipe" : d->k == PW ? "write end of a pipe" : d->k == FI ? "file " : "terminal ", d->name.c_str()); }
void check_exec(Proc* p, const char* file, char* const argv[]) {
  Obj* o = nullptr; int ci = -1; for (auto& x : objs) for (size_t i = 0; i < x->cmds.size(); ++i) if (x->cmds[i].prog == file) { o = x.get(); ci = (int)i; } REQUIRE(o, "wrong-program", "a child executes %s", file); Cmd& c = o->cmds[ci]; REQUIRE(o->id == cur_obj, "wrong-program", "executing object %d started a command of object %d", cur_obj, o->id);
  std::vector<std::string> a; for (int i = 0; argv[i]; ++i) a.push_back(argv[i]); REQUIRE(a == c.argv, "arguments-differ", "%s was started with arguments (%s) instead of (%s)", file, join(a, "|").c_str(), join(c.argv, "|").c_str());
  p->obj = o->id; p->cmd = ci; Rec& r = recs[p->uid]; r.obj = o->id; r.cmd = ci; r.execed = true; c.uid = p->uid; p->name = c.prog; r.name = p->name; bool last = ci + 1 == (int)o->cmds.size();
  std::string wd = o->wd.empty() ? "/home" : normal(o->wd, "/home"); REQUIRE(p->cwd == wd, "wrong-working-directory", "%s runs in %s instead of %s", file, p->cwd.c_str(), wd.c_str());
  for (int s = 1; s < 32; ++s) REQUIRE(s == SIGKILL || s == SIGSTOP || p->act[s].sa_handler == SIG_DFL, "child-signal-state", "%s starts with signal %d not at its default", file, s);
  REQUIRE(p->mask == mask0, "child-signal-state", "%s starts with signal mask %llx", file, (unsigned long long)p->mask);
  REQUIRE(o->group ? p->pgid == p->pid && p->sid == p->pid : p->pgid == tester->pgid, "wrong-process-group", "%s is in group %d", file, p->pgid);
  for (auto& f : p->fds) REQUIRE(f.first <= 2 || (find(tester->pid)->fds.count(f.first) && f.second.d->name.find("own") == 0), "descriptor-inherited", "%s inherits descriptor %d (%s)", file, f.first, desc(f.second.d).c_str());
  auto at = [&](int fd) -> D { auto i = p->fds.find(fd); return i == p->fds.end() ? nullptr : i->second.d; }; auto held = [&](std::shared_ptr<Pipe> q) { for (auto& f : tester->fds) if (f.second.d->k == PR && f.second.d->p == q) return true; return false; };
  D d0 = at(0), d1 = at(1), d2 = at(2);
  if (ci == 0) { bool ok = o->in == 0 ? d0 == tester->fds[0].d : o->in == 1 ? d0 && d0->k == FI && d0->name == normal(o->fin, wd) && !d0->wr : o->in == 2 ? d0 == o->nin : !d0; REQUIRE(ok, "wrong-stdin", "%s has %s as input", file, desc(d0).c_str()); }
  else { REQUIRE(d0 && d0->k == PR && d0->p == last_exec, "wrong-stdin", "command %d has %s as input, not the output of the command before", ci, desc(d0).c_str()); }
  if (!last) { REQUIRE(d1 && d1->k == PW, "wrong-stdout", "command %d has %s as output", ci, desc(d1).c_str()); last_exec = d1->p; }
  else { bool ok = o->out == 0 ? d1 && d1->k == PW && held(d1->p) : o->out == 1 ? d1 && d1->k == FI && d1->name == normal(o->fout, wd) : o->out == 2 ? d1 == tester->fds[1].d : d1 == o->nout; REQUIRE(ok, "wrong-stdout", "%s has %s as output", file, desc(d1).c_str()); if (o->out == 0) { REQUIRE(!o->outp || o->outp == d1->p, "wrong-stdout", "the merged error output of an earlier command goes elsewhere"); o->outp = d1->p; } }
  if (o->merge) { if (last) REQUIRE(d2 == d1, "wrong-stderr", "merged error output goes to %s", desc(d2).c_str()); else if (o->out == 0) { REQUIRE(d2 && d2->k == PW && held(d2->p), "wrong-stderr", "merged error output goes to %s", desc(d2).c_str()); o->outp = d2->p; } }
  else { bool ok = o->err == 0 ? d2 && d2->k == PW && held(d2->p) : o->err == 1 ? d2 && d2->k == FI && d2->name == normal(o->ferr, wd) : o->err == 2 ? d2 == tester->fds[2].d : d2 == o->nerr; REQUIRE(ok, "wrong-stderr", "%s has %s as error output", file, desc(d2).c_str()); if (o->err == 0) { REQUIRE(!o->errp || o->errp == d2->p, "wrong-stderr", "commands of one pipeline have different error outputs"); o->errp = d2->p; REQUIRE(d2->p != (d1->k == PW ? d1->p : nullptr), "wrong-stderr", "error output is not separate"); } }
  ++o->started; }
int set_err(int e) { errno = e; return -1; }
int alloc_fd(Proc* p, D d, int from = 0) { int fd = from; while (p->fds.count(fd)) ++fd; p->fds[fd] = Fd{d, false}; return fd; }
D pipe_end(std::shared_ptr<Pipe> p, Kind k) { D d(new Desc); d->k = k; d->p = p; if (k == PR) ++p->nr; else ++p->nw; return d; }
bool descends(Proc* p, Proc* top) { for (int i = 0; p && i < 100; ++i) { if (p == top) return true; p = find(p->ppid); } return false; }
int do_kill(int pid, int s) {
  Proc* me = cur; ev("    [%d] kill(%d, %d)", me->pid, pid, s); if (s < 0 || s > 64) return set_err(EINVAL); std::vector<int> t;
  if (pid == -1) violation("signalled-everything", "%s sends signal %d to every process", wh, s);
  if (pid > 0) { if (find(pid)) t.push_back(pid); } else { int g = pid == 0 ? me->pgid : -pid; for (auto& q : procs) if (q.second->pgid == g) t.push_back(q.first); }
  if (t.empty()) return set_err(ESRCH); bool perm = false;
  for (int x : t) { Proc* p = find(x); if (!p) continue; if (p->stranger) { if (pid != 0) violation("signalled-stranger", "%s sends signal %d to process %d, which it did not start", wh, s, x); continue; }
    if (me == tester && pid != 0 && !in_handler) { REQUIRE(p != tester, "signalled-itself", "%s sends signal %d to its own process", wh, s); REQUIRE(p->obj == cur_obj, "signalled-other-object", "%s of object %d sends signal %d to a process of object %d", wh, cur_obj, s, p->obj); }
    perm = true; if (s) post(p, s, me); }
  return perm ? 0 : set_err(EPERM); }
} // namespace

extern "C" {
pid_t pk_fork() { Sys s("fork"); if (inject(F.fork, "fork_failed")) return set_err(chance(500) ? EAGAIN : ENOMEM); Proc* me = cur; Proc* c = make(me->pid); c->pgid = me->pgid; c->sid = me->sid; c->fds = me->fds; memcpy(c->act, me->act, sizeof c->act); c->mask = me->mask; c->cwd = me->cwd; c->name = "forked"; c->real = true; c->obj = cur_obj; recs[c->uid].obj = cur_obj; recs[c->uid].name = "forked"; ev("    [%d] fork -> [%d]", me->pid, c->pid); c->fresh = true; me->forkret = c->pid; want_fork = true; int child = c->pid; to_kernel(); return cur->pid == child ? 0 : cur->forkret; }
int pk_pipe2(int p[2], int fl) { Sys s("pipe"); if (inject(F.pipe, "pipe_EMFILE")) return set_err(chance(500) ? EMFILE : ENFILE); auto q = std::make_shared<Pipe>(); q->cap = chance(400) ? 4096 : 65536; D r = pipe_end(q, PR), w = pipe_end(q, PW); p[0] = alloc_fd(cur, r); p[1] = alloc_fd(cur, w); if (fl & O_CLOEXEC) cur->fds[p[0]].cloexec = cur->fds[p[1]].cloexec = true; if (fl & O_NONBLOCK) r->nonblock = w->nonblock = true; return 0; }
int pk_pipe(int p[2]) { return pk_pipe2(p, 0); }
int pk_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); Sys s("fcntl"); auto i = cur->fds.find(fd); if (i == cur->fds.end()) return set_err(EBADF); if (inject(F.fcntl, "fcntl_failed")) return set_err(EIO);
  switch (cmd) { case F_SETFD: i->second.cloexec = a & FD_CLOEXEC; return 0; case F_GETFD: return i->second.cloexec ? FD_CLOEXEC : 0; case F_GETFL: return (i->second.d->nonblock ? O_NONBLOCK : 0) | (i->second.d->k == PW ? O_WRONLY : O_RDONLY); case F_SETFL: i->second.d->nonblock = a & O_NONBLOCK; return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = alloc_fd(cur, i->second.d, (int)a); cur->fds[n].cloexec = cmd == F_DUPFD_CLOEXEC; return n; } } return set_err(EINVAL); }
int pk_dup(int fd) { Sys s("dup"); auto i = cur->fds.find(fd); if (i == cur->fds.end()) return set_err(EBADF); return alloc_fd(cur, i->second.d); }
int pk_dup3(int a, int b, int fl) { Sys s("dup2"); auto i = cur->fds.find(a); if (i == cur->fds.end()) return set_err(EBADF); if (a == b) return b; D d = i->second.d; cur->fds[b] = Fd{d, (fl & O_CLOEXEC) != 0}; return b; }
int pk_dup2(int a, int b) { return pk_dup3(a, b, 0); }
int pk_close(int fd) { Sys s("close"); auto i = cur->fds.find(fd); if (i == cur->fds.end()) return set_err(EBADF); if (cur == tester && fd <= 2) violation("closed-standard-descriptor", "%s closes descriptor %d of the parent", wh, fd); if (cur == tester && i->second.d->name == "own" ) violation("closed-foreign-descriptor", "%s closes descriptor %d, which it does not own", wh, fd); D keep = i->second.d; cur->fds.erase(i); return 0; }
ssize_t pk_read(int fd, void* b, size_t n) { Sys s("read"); auto i = cur->fds.find(fd); if (i == cur->fds.end() || i->second.d->k == PW) return set_err(EBADF); D d = i->second.d; if (!can_read(*d)) { if (d->nonblock) return set_err(EAGAIN); int r = block([d] { return can_read(*d); }, -1, true); if (r < 0) return set_err(EINTR); } else if (d->k == PR && inject(F.eintr / 4, "EINTR", true)) return set_err(EINTR); if (n >= 512 && inject(F.shrt, "short_read", true)) n = 1 + choose((uint32_t)n); return get(*d, (char*)b, n); }
ssize_t pk_read_chk(int fd, void* b, size_t n, size_t) { return pk_read(fd, b, n); }
ssize_t pk_write(int fd, const void* b, size_t n) { Sys s("write"); auto i = cur->fds.find(fd); if (i == cur->fds.end() || i->second.d->k == PR) return set_err(EBADF); D d = i->second.d; size_t done = 0; while (done < n) { if (d->k == PW && d->p->nr == 0) { if (cur->act[SIGPIPE].sa_handler != SIG_IGN) { cur->pending |= 1ull << SIGPIPE; } return set_err(EPIPE); } if (!can_write(*d)) { if (d->nonblock) { if (done) return done; return set_err(EAGAIN); } int r = block([d] { return can_write(*d); }, -1, true); if (r < 0) { if (done) return done; return set_err(EINTR); } continue; } ssize_t k = put(*d, (const char*)b + done, n - done); if (k < 0) continue; done += k; } return done; }
static int do_select(int n, fd_set* r, fd_set* w, fd_set* e, ns deadline) { fd_set in = *r; std::vector<std::pair<int, D>> v; if (w) FD_ZERO(w); if (e) FD_ZERO(e); for (int i = 0; i < n; ++i) if (FD_ISSET(i, &in)) { auto q = cur->fds.find(i); if (q == cur->fds.end()) return set_err(EBADF); v.push_back({i, q->second.d}); }
  if (inject(F.select, "select_ENOMEM")) return set_err(ENOMEM); if (!v.empty() && inject(F.spurious, "spurious_readiness", true)) { FD_ZERO(r); FD_SET(v[choose((uint32_t)v.size())].first, r); return 1; }
  int x = block([v] { for (auto& q : v) if (can_read(*q.second)) return true; return false; }, deadline, false); if (x < 0) return set_err(EINTR); FD_ZERO(r); int k = 0; for (auto& q : v) if (can_read(*q.second)) { FD_SET(q.first, r); ++k; } return k; }
int pk_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { Sys s("select"); fd_set none; FD_ZERO(&none); if (!r) r = &none; if (t && (t->tv_sec < 0 || t->tv_usec < 0)) return set_err(EINVAL); ns dl = t ? g_now_ns + t->tv_sec * SEC + t->tv_usec * US : -1; int x = do_select(n, r, w, e, dl); if (t) { int er = errno; ns left = dl > g_now_ns ? dl - g_now_ns : 0; t->tv_sec = left / SEC; t->tv_usec = left % SEC / US; errno = er; } return x; }
int pk_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* t, const sigset_t*) { Sys s("pselect"); fd_set none; FD_ZERO(&none); if (!r) r = &none; if (t && (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= SEC)) return set_err(EINVAL); return do_select(n, r, w, e, t ? g_now_ns + t->tv_sec * SEC + t->tv_nsec : -1); }
int pk_poll(struct pollfd* p, nfds_t n, int ms) { Sys s("poll"); std::vector<D> v(n); for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (p[i].fd >= 0) { auto q = cur->fds.find(p[i].fd); if (q == cur->fds.end()) p[i].revents = POLLNVAL; else v[i] = q->second.d; } } if (inject(F.select, "select_ENOMEM")) return set_err(ENOMEM); int x = block([v] { for (auto& d : v) if (d && can_read(*d)) return true; return false; }, ms < 0 ? -1 : g_now_ns + ms * MS, false); if (x < 0) return set_err(EINTR); int k = 0; for (nfds_t i = 0; i < n; ++i) { if (v[i] && can_read(*v[i])) p[i].revents = v[i]->p && v[i]->p->buf.empty() ? POLLHUP : POLLIN; if (p[i].revents) ++k; } return k; }
pid_t pk_waitpid(pid_t pid, int* st, int opt) { Sys s("waitpid"); int me = cur->pid, g = cur->pgid; auto match = [=](Proc* p) { return p->ppid == me && (pid == -1 || (pid > 0 && p->pid == pid) || (pid == 0 && p->pgid == g) || (pid < -1 && p->pgid == -pid)); }; auto any = [=] { for (auto& q : procs) if (match(q.second.get())) return true; return false; }; auto zomb = [=]() -> Proc* { for (auto& q : procs) if (match(q.second.get()) && q.second->st == ZOMBIE) return q.second.get(); return nullptr; };
  if (!any()) return set_err(ECHILD); if (cur == tester && !(opt & WNOHANG) && inject(F.eintr, "EINTR", true)) return set_err(EINTR); if (!zomb()) { if (opt & WNOHANG) return 0; int r = block([=] { return zomb() || !any(); }, -1, true); if (r < 0) return set_err(EINTR); } Proc* z = zomb(); if (!z) return set_err(ECHILD); if (cur == tester && z->obj < 0 && !in_handler) violation("reaped-foreign-child", "%s takes the exit status of process %d, which belongs to somebody else", wh, z->pid); if (st) *st = z->status; int p = z->pid; ev("    [%d] reaps [%d]", me, p); vanish(p); if (cur == tester && sigint_at_reap && !in_handler && chance(150)) { sigint_at_reap = false; post(cur, chance(500) ? SIGINT : SIGTERM, nullptr); probe("signal_while_reaping"); } return p; }
pid_t pk_wait(int* st) { return pk_waitpid(-1, st, 0); }
pid_t pk_wait4(pid_t p, int* st, int o, void*) { return pk_waitpid(p, st, o); }
pid_t pk_wait3(int* st, int o, void*) { return pk_waitpid(-1, st, o); }
int pk_kill(pid_t p, int sg) { Sys s("kill"); return do_kill(p, sg); }
int pk_killpg(pid_t p, int sg) { Sys s("killpg"); return do_kill(p ? -p : 0, sg); }
int pk_raise(int sg) { Sys s("raise"); if (cur->act[sg].sa_handler != SIG_IGN) cur->pending |= 1ull << sg; return 0; }
pid_t pk_setsid() { Sys s("setsid"); if (inject(F.setsid, "setsid_failed") || cur->pgid == cur->pid) return set_err(EPERM); cur->pgid = cur->sid = cur->pid; return cur->pid; }
int pk_setpgid(pid_t p, pid_t g) { Sys s("setpgid"); Proc* q = p ? find(p) : cur; if (!q) return set_err(ESRCH); q->pgid = g ? g : q->pid; return 0; }
pid_t pk_getpid() { return cur->pid; } pid_t pk_getppid() { return cur->ppid; } pid_t pk_getpgrp() { return cur->pgid; }
int pk_execvp(const char* file, char* const argv[]) { Sys s("exec"); REQUIRE(cur != tester, "parent-replaced", "the parent process itself executes %s", file); if (inject(F.exec, "exec_failed")) return set_err(pick(std::vector<int>{ENOENT, EACCES, ENOMEM, E2BIG, ETXTBSY})); Obj* o = nullptr; int ci = -1; for (auto& x : objs) for (size_t i = 0; i < x->cmds.size(); ++i) if (x->cmds[i].prog == file) { o = x.get(); ci = (int)i; } if (!o || !o->cmds[ci].script) return set_err(ENOENT);
  Proc* p = cur; for (auto i = p->fds.begin(); i != p->fds.end();) if (i->second.cloexec) i = p->fds.erase(i); else ++i; for (int k = 1; k < 64; ++k) if (handled(p, k)) p->act[k].sa_handler = SIG_DFL; ev("    [%d] exec %s", p->pid, file); check_exec(p, file, argv); p->script = o->cmds[ci].script; p->real = false; p->pc = 0; p->img = Image(); if (loaded == p) loaded = nullptr; uint64_t pend = deliverable(p); for (int k = 1; k < 64; ++k) if ((pend >> k & 1) && p->st != ZOMBIE) default_action(p, k); for (;;) to_kernel(); }
void pk__exit(int c) { ++g_depth; if (cur == tester && !in_handler) violation("parent-exits", "%s ends the parent process", wh); die(cur, (c & 0xff) << 8); for (;;) to_kernel(); }
int pk_sigaction(int sg, const struct sigaction* a, struct sigaction* old) { Sys s("sigaction"); if (sg < 1 || sg > 64 || ((sg == SIGKILL || sg == SIGSTOP) && a)) return set_err(EINVAL); if (old) *old = cur->act[sg]; if (a) cur->act[sg] = *a; return 0; }
void (*pk_signal(int sg, void (*h)(int)))(int) { struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART; if (pk_sigaction(sg, &a, &o) < 0) return SIG_ERR; return o.sa_handler; }
int pk_sigprocmask(int how, const sigset_t* a, sigset_t* old) { Sys s("sigprocmask"); uint64_t om = cur->mask; if (a) { uint64_t m = 0; for (int k = 1; k < 64; ++k) if (sigismember(a, k) == 1) m |= 1ull << k; if (how == SIG_BLOCK) cur->mask |= m; else if (how == SIG_UNBLOCK) cur->mask &= ~m; else cur->mask = m; } if (old) { sigemptyset(old); for (int k = 1; k < 64; ++k) if (om >> k & 1) sigaddset(old, k); } return 0; }
int pk_gettimeofday(struct timeval* t, void*) { Sys s("gettimeofday"); ns n = g_now_ns + EPOCH; t->tv_sec = n / SEC; t->tv_usec = n % SEC / US; return 0; }
int pk_clock_gettime(clockid_t c, struct timespec* t) { Sys s("clock_gettime"); ns n = g_now_ns + (c == CLOCK_MONOTONIC ? 0 : EPOCH); t->tv_sec = n / SEC; t->tv_nsec = n % SEC; return 0; }
time_t pk_time(time_t* t) { Sys s("time"); time_t r = (g_now_ns + EPOCH) / SEC; if (t) *t = r; return r; }
char* pk_getcwd(char* b, size_t n) { Sys s("getcwd"); if (inject(F.getcwd, "getcwd_failed")) { errno = ENOENT; return nullptr; } if (cur->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, cur->cwd.c_str()); return b; }
int pk_chdir(const char* p) { Sys s("chdir"); std::string d = normal(p, cur->cwd); if (inject(F.eintr / 4, "EINTR", true)) return set_err(EINTR); if (d != "/home" && inject(F.chdir, "chdir_failed")) return set_err(EACCES); if (!dirs.count(d)) return set_err(ENOENT); cur->cwd = d; return 0; }
int pk_open(const char* p, int fl, ...) { Sys s("open"); std::string f = normal(p, cur->cwd); if (inject(F.open, "open_failed")) return set_err(pick(std::vector<int>{EMFILE, EACCES, ENOSPC})); if (!dirs.count(dirname_of(f))) return set_err(ENOENT); auto i = files.find(f); if (i == files.end()) { if (!(fl & O_CREAT)) return set_err(ENOENT); i = files.insert({f, std::make_shared<File>()}).first; } if (fl & O_TRUNC) i->second->data.clear(); D d(new Desc); d->k = FI; d->f = i->second; d->name = f; d->wr = (fl & O_ACCMODE) != O_RDONLY; int fd = alloc_fd(cur, d); if (fl & O_CLOEXEC) cur->fds[fd].cloexec = true; return fd; }
// /proc and ps
struct SimDir { int last; struct dirent e; }; static int open_procdirs, open_files, open_ps;
DIR* pk_opendir(const char* n) { Sys s("opendir"); if (inject(F.opendir, "opendir_EMFILE")) { errno = EMFILE; return nullptr; } if (strcmp(n, "/proc")) { errno = ENOENT; return nullptr; } SimDir* d = new SimDir; d->last = -3; ++open_procdirs; return (DIR*)d; }
struct dirent* pk_readdir(DIR* dd) { Sys s("readdir"); SimDir* d = (SimDir*)dd; static const char* const odd[] = {".", "..", "self"}; if (d->last < 0) { strcpy(d->e.d_name, odd[d->last + 3]); ++d->last; if (d->last == 0) d->last = 0; return &d->e; } auto i = procs.upper_bound(d->last); if (i == procs.end()) return nullptr; d->last = i->first; snprintf(d->e.d_name, sizeof d->e.d_name, "%d", i->first); return &d->e; }
int pk_closedir(DIR* d) { Sys s("closedir"); delete (SimDir*)d; --open_procdirs; return 0; }
static Proc* proc_of(const char* p) { int pid; if (sscanf(p, "/proc/%d/stat", &pid) != 1) return nullptr; return find(pid); }
int pk_stat(const char* p, struct stat* st) { Sys s("stat"); if (inject(F.procfs, "procfs_error")) return set_err(EIO); if (!proc_of(p)) return set_err(ENOENT); memset(st, 0, sizeof *st); return 0; }
int pk_access(const char* p, int) { Sys s("access"); return proc_of(p) ? 0 : set_err(ENOENT); }
static FILE* text_file(const std::string& t) { char* b = (char*)malloc(t.size() + 1); memcpy(b, t.data(), t.size()); FILE* f = fmemopen(nullptr, t.size() + 1, "w+"); fwrite(t.data(), 1, t.size(), f); rewind(f); setvbuf(f, nullptr, _IONBF, 0); free(b); ++open_files; return f; }
FILE* pk_fopen(const char* p, const char*) { Sys s("fopen"); if (inject(F.procfs, "procfs_error")) { errno = EMFILE; return nullptr; } Proc* q = proc_of(p); if (!q) { errno = ENOENT; return nullptr; } return text_file(strf("%d (%s) %c %d %d %d 0 -1 4194560 100 0 0 0 0 0 0 0 20 0 1 0 100 1000 10\n", q->pid, q->stranger ? "x) S 1 (y z" : q->name.c_str(), q->st == ZOMBIE ? 'Z' : q->st == STOPPED ? 'T' : 'S', q->ppid, q->pgid, q->sid)); }
int pk_fclose(FILE* f) { Sys s("fclose"); --open_files; return fclose(f); }
FILE* pk_popen(const char* c, const char*) { Sys s("popen"); REQUIRE(strstr(c, "ps") == c, "unexpected-command", "%s runs '%s'", wh, c); if (inject(F.popen, "popen_failed")) { errno = EAGAIN; return nullptr; } std::string t = "    PID    PPID\n"; for (auto& q : procs) t += strf("%7d %7d\n", q.first, q.second->ppid); ++open_ps; probe("ps_fallback"); return text_file(t); }
int pk_pclose(FILE* f) { Sys s("pclose"); --open_ps; --open_files; fclose(f); post(cur, SIGCHLD, nullptr); return 0; }
static void zz(ns t) { ns dl = g_now_ns + t; block([] { return false; }, dl, false); }
int pk_usleep(useconds_t u) { Sys s("usleep"); zz(u * US); return 0; }
int pk_nanosleep(const struct timespec* t, struct timespec*) { Sys s("nanosleep"); zz(t->tv_sec * SEC + t->tv_nsec); return 0; }
unsigned pk_sleep(unsigned n) { Sys s("sleep"); zz(n * SEC); return 0; }
}

// ------------------------------------------------------------------ driver: the parent program
namespace {
struct Profile { const char* id; int objs; bool timeouts, kills, signals, foreign, detach, failures, oom; };
const Profile* P; std::map<int, Fd> base_fds; struct sigaction act0[65]; int user_signals; ns slack() { return 150 * MS + stalled; }
void user_handler(int) { Scope s; ++user_signals; ev("    the program's own handler runs"); }
int script_len(Script& s) { int n = 0; for (auto& o : s.ops) { if (o.k == WRITE) n += (int)o.data.size(); if (o.child) n += script_len(*o.child); } return n; }
std::string blob(int n) { std::string r; int c = choose(26); for (int i = 0; i < n; ++i) r += (char)(chance(20) ? choose(256) : 'a' + (c + i / 7) % 26); return r; }
// a program: what it reads, writes, starts, and how it ends
ScriptP program(int depth, bool filter, bool endless, bool may_ignore, bool big) {
  ScriptP s(new Script); auto add = [&](OpK k, int a = 0, std::string d = "", ns t = 0, ScriptP c = nullptr) { s->ops.push_back(Op{k, a, d, t, c}); };
  if (may_ignore && chance(150)) { add(IGN, pick(std::vector<int>{SIGPIPE, SIGTERM, SIGINT, SIGHUP})); }
  if (filter && chance(700)) add(CAT); else if (filter && chance(500)) add(READALL);
  int n = choose(4); for (int i = 0; i < n; ++i) switch (weighted({10, 4, 3, 2, 1})) {
    case 0: add(WRITE, 1 + choose(2), blob(big && chance(250) ? range(1000, 9000) : big && chance(100) ? pick(std::vector<int>{1023, 1024, 1025, 2048, 4096}) : choose(40))); break;
    case 1: add(SLEEP, 0, "", chance(500) ? range(1, 999) * US : range(1, 900) * MS); break;
    case 2: if (depth > 0) { add(SPAWN, 0, "", 0, program(depth - 1, false, endless, may_ignore, false)); if (chance(400)) add(WAITK); } break;
    case 3: add(CLOSE, choose(3)); break;
    case 4: if (may_ignore && depth < 2) add(SETSID); break; }
  if (endless && chance(400)) { if (chance(300)) { add(CLOSE, 1); add(CLOSE, 2); } add(FOREVER); }
  else if (chance(250)) add(RAISE, pick(std::vector<int>{SIGSEGV, SIGABRT, SIGKILL, SIGTERM, SIGINT, SIGFPE, SIGILL, SIGBUS, SIGHUP, SIGUSR1, SIGXCPU, SIGTRAP, SIGUSR2, SIGPIPE, SIGALRM, SIGSTKFLT, SIGXFSZ, SIGVTALRM, SIGPROF, SIGPOLL, SIGPWR, SIGSYS, SIGQUIT, 35, 40, 63}));
  else if (chance(800)) add(EXITOP, chance(300) ? 0 : choose(256));
  return s; }
bool executing(Obj& o) { return o.cp && !o.finished && o.started && !o.ended; }
void invariants(const char* at) {
  if (cur != tester) violation("child-returns", "%s returns in a child process", at); if (tester->st == ZOMBIE) return;
  REQUIRE(tester->mask == mask0, "signal-mask-changed", "after %s the parent's signal mask is %llx, not %llx", at, (unsigned long long)tester->mask, (unsigned long long)mask0);
  REQUIRE(tester->cwd == "/home", "working-directory-changed", "after %s the parent's working directory is %s", at, tester->cwd.c_str());
  REQUIRE(!open_procdirs && !open_files && !open_ps, "handle-leaked", "after %s there are %d directory streams, %d files and %d ps commands open", at, open_procdirs, open_files, open_ps);
  int active = 0, detached = 0; for (auto& o : objs) if (o->started > 0 && !o->ended) { ++active; if (o->detach) ++detached; }
  for (auto& f : base_fds) { auto i = tester->fds.find(f.first); REQUIRE(i != tester->fds.end() && i->second.d == f.second.d, "descriptor-lost", "after %s the parent's descriptor %d is gone or replaced", at, f.first); REQUIRE(i->second.cloexec == f.second.cloexec || f.second.d->k != TTY, "descriptor-changed", "after %s descriptor %d has another close-on-exec flag", at, f.first); }
  if (!active) { std::string l; for (auto& f : tester->fds) if (!base_fds.count(f.first)) l += strf("%d (%s) ", f.first, desc(f.second.d).c_str()); REQUIRE(l.empty(), "descriptor-leaked", "after %s descriptors remain open: %s", at, l.c_str()); }
  if (active == detached) for (int s : {SIGCHLD, SIGINT, SIGTERM}) REQUIRE(tester->act[s].sa_handler == act0[s].sa_handler && tester->act[s].sa_flags == act0[s].sa_flags, "disposition-not-restored", "after %s nothing runs any more but the action for signal %d is not the one the program had installed", at, s);
  for (int s = 1; s < 64; ++s) if (s != SIGCHLD && s != SIGINT && s != SIGTERM) REQUIRE(tester->act[s].sa_handler == act0[s].sa_handler, "disposition-not-restored", "after %s the action for signal %d has changed", at, s);
  for (auto& q : procs) { Proc* p = q.second.get(); if (p->ppid != tester->pid || p == tester) continue; if (p->obj < 0) continue; Obj& o = *objs[p->obj]; bool live = o.started > 0 && !o.ended;
    if (!live) { if (p->st == ZOMBIE) violation("zombie-left", "after %s process %d of object %d, which no longer runs, was never waited for", at, p->pid, p->obj); violation("child-left", "after %s process %d of object %d, which no longer runs, is alive", at, p->pid, p->obj); }
    if (p->cmd < 0) violation(p->st == ZOMBIE ? "zombie-left" : "child-left", "after %s a helper process of object %d is left", at, p->obj); } }
template <class Fn> void api(Obj& o, const char* name, const Fn& fn) {
  static std::string w; w = strf("%s of object %d", name, o.id); wh = w.c_str(); where("%s", wh); cur_obj = o.id; ev("%lld.%03lld ms: %s", (long long)(g_now_ns / MS), (long long)(g_now_ns % MS / US), wh); arm_hook();
  { Unscope u; fn(); } g_hook_at = ~0ull; if (cur != tester) violation("child-returns", "%s returns in a child process", w.c_str()); cur_obj = -1; }
// processes of the object that survived although Kill should have found them
void containment(Obj& o, const char* at) {
  if (fired["procfs_error"] || (fired["opendir_EMFILE"] && fired["popen_failed"])) return;
  for (auto& q : procs) { Proc* p = q.second.get(); if (p->obj != o.id || p->st == ZOMBIE || p == tester || p->uid < o.uid0) continue; bool orphan = false, root = false; for (int u = p->uid;;) { if (recs[u].cmd >= 0 && recs[u].execed) { root = true; if (u < o.uid0) orphan = true; } int pa = recs[u].parent; if (root || pa < 0 || recs[pa].obj != o.id) break; if (recs[pa].exited && !recs[pa].by_tester) { orphan = true; break; } u = pa; }
    if (!orphan) violation("survivor", "after %s process %d (%s) started by object %d is still alive", at, p->pid, p->name.c_str(), o.id); } }
bool names_signal(const char* xs, int s) {
  static const std::map<int, const char*> t = {{SIGSEGV, "Segmentation fault"}, {SIGBUS, "Bus error"}, {SIGFPE, "Floating-point exception"}, {SIGILL, "Illegal instruction"}, {SIGINT, "User interrupt"}, {SIGABRT, "Child aborted"}, {SIGKILL, "Child killed"}, {SIGTERM, "Child terminated"}, {SIGHUP, "SIGHUP"}, {SIGQUIT, "SIGQUIT"}, {SIGTRAP, "SIGTRAP"}, {SIGUSR1, "SIGUSR1"}, {SIGUSR2, "SIGUSR2"}, {SIGPIPE, "SIGPIPE"}, {SIGALRM, "SIGALRM"}, {SIGSTKFLT, "SIGSTKFLT"}, {SIGXCPU, "SIGXCPU"}, {SIGXFSZ, "SIGXFSZ"}, {SIGVTALRM, "SIGVTALRM"}, {SIGPROF, "SIGPROF"}, {SIGPOLL, "SIGPOLL"}, {SIGPWR, "SIGPWR"}, {SIGSYS, "SIGSYS"}};
  auto i = t.find(s); return i == t.end() ? strf("Signal %d", s) == xs : !strcmp(i->second, xs); }
void check_outcome(Obj& o, int st) {
  kwiversysProcess* cp = o.cp; int ex, code, val; const char *es, *xs; { Unscope u; ex = kwiversysProcess_GetExitException(cp); code = kwiversysProcess_GetExitCode(cp); val = kwiversysProcess_GetExitValue(cp); es = kwiversysProcess_GetErrorString(cp); xs = kwiversysProcess_GetExceptionString(cp); }
  ev("  state %d exception %d code 0x%x value %d '%s' '%s'", st, ex, code, val, es, xs);
  bool selerr = fired["select_ENOMEM"] || o.stolen;
  if (st == kwiversysProcess_State_Error) { REQUIRE(selerr, "error-without-fault", "object %d ends in the error state although nothing failed: %s", o.id, es); REQUIRE(es[0], "no-error-text", "object %d is in the error state without a message", o.id); if (o.stolen && !fired["select_ENOMEM"]) REQUIRE(!strcmp(es, strerror(ECHILD)), "wrong-error-text", "waiting for a program of object %d failed, but it reports '%s'", o.id, es); if (!o.stolen) containment(o, "the failed wait"); return; }
  REQUIRE(!strcmp(es, "Success"), "wrong-error-text", "object %d is not in the error state but reports '%s'", o.id, es);
  if (o.stolen && !o.killed && st != kwiversysProcess_State_Expired) { violation("failed-wait-hidden", "the exit status of a program of object %d could not be had, but it is in state %d", o.id, st); }
  if (o.killed) { REQUIRE(st == kwiversysProcess_State_Killed, "wrong-state", "object %d was killed but is in state %d", o.id, st); }
  else if (st == kwiversysProcess_State_Expired) { REQUIRE(o.timeout > 0 && g_now_ns >= o.t0 + (ns)(o.timeout * 1e9) - 5 * US, "expired-early", "object %d expired after %.6f s with a timeout of %.6f s", o.id, (g_now_ns - o.t0) / 1e9, o.timeout); containment(o, "the timeout"); o.expired = true; count("expired"); }
  else if (o.detach) { REQUIRE(st == kwiversysProcess_State_Exited || st == kwiversysProcess_State_Disowned, "wrong-state", "detached object %d ends in state %d", o.id, st); }
  else {
    Cmd& last = o.cmds.back(); Rec& r = recs[last.uid]; REQUIRE(r.exited, "ended-early", "object %d is reported as finished while its last program is running", o.id);
    for (auto& c : o.cmds) REQUIRE(recs[c.uid].exited, "ended-early", "object %d is reported as finished while %s is running", o.id, c.prog.c_str());
    if (WIFEXITED(r.status)) { REQUIRE(st == kwiversysProcess_State_Exited && val == WEXITSTATUS(r.status) && ex == kwiversysProcess_Exception_None, "wrong-exit-status", "the last program of object %d returned %d; reported: state %d value %d exception %d", o.id, WEXITSTATUS(r.status), st, val, ex); REQUIRE(code == r.status && !strcmp(xs, "No exception"), "wrong-exit-status", "the last program of object %d ended with status 0x%x; reported: code 0x%x '%s'", o.id, r.status, code, xs); count("exited"); }
    else { int s = WTERMSIG(r.status), want = s == SIGSEGV || s == SIGBUS ? kwiversysProcess_Exception_Fault : s == SIGFPE ? kwiversysProcess_Exception_Numerical : s == SIGILL ? kwiversysProcess_Exception_Illegal : s == SIGINT ? kwiversysProcess_Exception_Interrupt : kwiversysProcess_Exception_Other; REQUIRE(st == kwiversysProcess_State_Exception && ex == want && xs[0] && strcmp(xs, "No exception") && names_signal(xs, s), "wrong-exit-status", "the last program of object %d died of signal %d; reported: state %d exception %d '%s'", o.id, s, st, ex, xs); count("signalled"); }
    if (!o.ignored) for (int k = 0; k < 2; ++k) { std::shared_ptr<Pipe> q = k ? o.errp : o.outp; std::string want = q ? q->log : ""; REQUIRE(o.got[k] == want, "output-lost", "object %d wrote %zu bytes to its %s, %zu were delivered", o.id, want.size(), k ? "error output" : "output", o.got[k].size()); if (want.size() > 4096) probe("output_above_pipe_capacity"); }
    for (int k = 0; k < 2; ++k) if ((k ? o.err : o.out) == 1) { auto i = files.find(normal(k ? o.ferr : o.fout, o.wd.empty() ? "/home" : normal(o.wd, "/home"))); REQUIRE(i != files.end() && (i->second->data.find("~~") == std::string::npos), "file-not-replaced", "object %d writes its output to a file that still has what was in it before", o.id); } nontrivial(); }
  if (o.killed) nontrivial(); }
void finish(Obj& o) { int st; { Unscope u; st = kwiversysProcess_GetState(o.cp); } o.ended = true; check_outcome(o, st); invariants("the end"); }
struct Wait { ns a; double before, left; };
void after_wait(Obj& o, bool user, double before, double left, ns a, ns st0, bool timed_out, const char* name) {
  ns took = g_now_ns - a, lag = stalled - st0 + 100 * MS;
  if (user) { double d = before - left; REQUIRE(left >= 0 || before < 0, "user-timeout-wrong", "%s leaves a negative time", name); REQUIRE(d >= -1e-9 && d <= took / 1e9 + 3e-6, "user-timeout-wrong", "%s took %.6f s but took %.6f s off the caller's time", name, took / 1e9, d); if (left > 0) REQUIRE(d >= (took - lag) / 1e9, "user-timeout-wrong", "%s took %.6f s but only %.6f s off the caller's time", name, took / 1e9, d);
    if (timed_out) { REQUIRE(took >= (ns)(before * 1e9) - 3 * US, "timeout-early", "%s reports a timeout after %.6f s instead of %.6f s", name, took / 1e9, before); }
    REQUIRE(took <= (ns)(before * 1e9) + lag || !timed_out, "timeout-late", "%s reports a timeout of %.6f s only after %.6f s", name, before, took / 1e9); }
  if (o.timeout > 0 && !o.killed) { ns end = o.t0 + (ns)(o.timeout * 1e9); REQUIRE(g_now_ns <= std::max(a, end) + lag, "timeout-late", "%s returns at %.6f s, %.6f s after the process timeout", name, g_now_ns / 1e9, (g_now_ns - end) / 1e9); }
  if (user) REQUIRE(took <= (ns)(std::max(before, 0.0) * 1e9) + lag, "timeout-late", "%s returns after %.6f s although the caller allowed %.6f s", name, took / 1e9, before); }
double pick_time() { return chance(150) ? 0 : chance(400) ? range(1, 999) / 1e6 : chance(100) ? range(1, 3) : range(1, 1500) / 1e3; }
void wait_data(Obj& o, bool user) {
  char* data = nullptr; int len = -1, r; double ut = pick_time(), before = ut; ns a = g_now_ns, st0 = stalled; bool nodata = chance(30); if (nodata) o.ignored = true; bool expired0 = o.expired || o.killed;
  bool avail = false; if (user && ut == 0 && !nodata && !expired0 && o.started > 0 && !o.ended) for (auto& q : {o.outp, o.errp}) if (q && !q->buf.empty()) avail = true;
  int sel0 = fired["select_ENOMEM"]; api(o, "WaitForData", [&] { r = kwiversysProcess_WaitForData(o.cp, nodata ? nullptr : &data, nodata ? nullptr : &len, user ? &ut : nullptr); }); ev("  -> %d (%d bytes)", r, len);
  if (!expired0) after_wait(o, user, before, ut, a, st0, r == kwiversysProcess_Pipe_Timeout, "WaitForData");
  if (avail && r == kwiversysProcess_Pipe_Timeout && !F.spurious) violation("poll-misses-data", "WaitForData with no time to wait says there is nothing although output of object %d was waiting", o.id); if (avail) probe("poll_with_data"); (void)sel0;
  REQUIRE(r != kwiversysProcess_Pipe_Timeout || user, "timeout-early", "WaitForData reports a user timeout that was not given");
  if (r == kwiversysProcess_Pipe_STDOUT || r == kwiversysProcess_Pipe_STDERR) { int k = r == kwiversysProcess_Pipe_STDERR; REQUIRE(!nodata && len > 0 && data, "wrong-data", "WaitForData reports %d bytes", len); REQUIRE(!o.killed && !o.expired, "wrong-data", "WaitForData reports data after the end"); o.got[k].append(data, len); std::shared_ptr<Pipe> q = k ? o.errp : o.outp; REQUIRE(q && (o.ignored || q->log.compare(0, o.got[k].size(), o.got[k]) == 0), "wrong-data", "object %d: the %s delivered so far is not what the programs wrote", o.id, k ? "error output" : "output"); }
  else REQUIRE(r == 0 || r == kwiversysProcess_Pipe_Timeout, "wrong-data", "WaitForData returns %d", r);
  if (r == 0) o.interrupted = true; invariants("WaitForData"); }
void wait_exit(Obj& o, bool user) {
  double ut = pick_time(), before = ut; ns a = g_now_ns, st0 = stalled; int r; bool late = o.expired || o.killed; if (!o.interrupted) o.ignored = true;
  api(o, "WaitForExit", [&] { r = kwiversysProcess_WaitForExit(o.cp, user ? &ut : nullptr); }); ev("  -> %d", r); if (!late) after_wait(o, user, before, ut, a, st0, r == 0, "WaitForExit"); REQUIRE(r == 1 || (r == 0 && user), "wrong-result", "WaitForExit returns %d", r);
  if (r) finish(o); else { int st; { Unscope u; st = kwiversysProcess_GetState(o.cp); } REQUIRE(st == kwiversysProcess_State_Executing, "wrong-state", "object %d times out in state %d", o.id, st); invariants("WaitForExit"); } }
void strange_process() { Proc* s = make(1); s->ppid = 1; s->stranger = true; s->pgid = s->sid = s->pid; s->name = "stranger"; s->script = ScriptP(new Script); s->script->ops.push_back(Op{SLEEP, 0, "", range(1, 900) * MS, nullptr}); s->cwd = "/"; }
void kill_it(Obj& o) { bool was = o.killed; ns a = g_now_ns, st0 = stalled; api(o, "Kill", [&] { kwiversysProcess_Kill(o.cp); }); REQUIRE(g_now_ns - a <= SEC + stalled - st0, "kill-slow", "Kill takes %.3f s", (g_now_ns - a) / 1e9); bool exp = o.expired; o.killed = true; if (exp) o.killed = true; if (was) probe("killed_twice"); containment(o, "Kill"); invariants("Kill"); count("kills"); if (o.detach && objs.size() == 1 && !was && chance(500)) { reuse_pids = true; Proc* a = find(100) ? nullptr : nullptr; (void)a; for (int k = 0; k < 3; ++k) strange_process(); probe("pid_reused_after_kill"); } }
// quotes arguments into one line that the documented parsing takes apart again
std::string quoted(const Strs& argv) { std::string r = chance(100) ? " " : ""; for (size_t i = 0; i < argv.size(); ++i) { if (i) r += pick(std::vector<std::string>{" ", "  ", "\t", " \n "}); const std::string& a = argv[i]; int style = a.empty() ? 1 + choose(2) : choose(4); bool q = false; std::string w; if (style == 1) { w = "\""; for (char c : a) { if (c == '"' || c == '\\') w += '\\'; w += c; } w += "\""; } else if (style == 2 && a.find('\'') == std::string::npos) { w = "'"; for (char c : a) { if (c == '\\') w += '\\'; w += c; } w += "'"; } else { for (char c : a) { if (c == '"' || c == '\'' || c == '\\' || isspace((unsigned char)c)) w += '\\'; w += c; } if (a.empty()) w = "''"; } (void)q; r += w; } if (chance(100)) r += " "; return r; }
bool unexec;   // a program, directory or file does not exist
void oom(bool on) { alloc_arm(0); if (on && P->oom && chance(400)) alloc_arm(1 + choose(chance(150) ? 150 : 12)); }
bool oomed() { bool f = alloc_fired(); alloc_disarm(); return f; }
// creates or reconfigures an object; false when out of memory
bool configure(Obj& o) {
  o.cmds.clear(); o.started = 0; o.ended = o.killed = o.expired = o.ignored = o.interrupted = o.stolen = false; o.outp = o.errp = nullptr; o.got[0].clear(); o.got[1].clear(); o.nin = o.nout = o.nerr = nullptr; o.fin = o.fout = o.ferr = ""; unexec = false;
  if (!o.cp) { oom(true); api(o, "New", [&] { o.cp = kwiversysProcess_New(); }); bool f = oomed(); REQUIRE(o.cp || f, "no-object", "New fails"); if (!o.cp) { kwiversysProcess* z = nullptr; Unscope u; REQUIRE(kwiversysProcess_GetState(z) == kwiversysProcess_State_Error && kwiversysProcess_GetErrorString(z)[0], "null-object", "the null object is not in the error state"); kwiversysProcess_Execute(z); kwiversysProcess_WaitForExit(z, 0); return false; } }
  int n = 1 + weighted({24, 12, 5, 2, 1, 1}); bool verbatim = chance(250); o.stealing = !P->signals && !P->detach && chance(120); o.group = chance(400); o.detach = P->detach && chance(700); o.merge = chance(250); o.in = weighted({5, 2, 2, 2}); o.out = weighted({8, 1, 1, 1}); o.err = weighted({8, 1, 1, 1}); o.wd = chance(250) ? pick(std::vector<std::string>{"/home/wd", "wd", "/work"}) : ""; if (o.in == 2) o.in = 3; else if (o.in == 3) o.in = P->detach || P->signals ? 0 : 2; if (P->detach) { if (o.out == 3) o.out = 0; if (o.err == 3) o.err = 0; }
  bool endless = P->timeouts || P->kills; if (P->signals) endless = o.group; o.timeout = P->timeouts ? (chance(700) ? std::max(pick_time(), 1e-6) : 0) : 0; if (chance(150) && o.timeout == 0) { o.timeout = 1000; }
  bool may_ignore = !P->signals; int total = 0; bool ok = true; bool first_ok = true;
  for (int i = 0; i < n && ok; ++i) { Cmd c; c.prog = strf("prog%d_%d", o.id, i); c.argv.push_back(c.prog); bool wide = chance(60); if (wide) probe("long_command_line"); for (int k = wide ? range(5, 140) : choose(4); k > 0; --k) c.argv.push_back(verbatim ? text(wide && chance(60) ? range(300, 3000) : 6, "ab 'c\"\\\t$x") : chance(30) ? blob(1200) : text(6, "ab '\"\\\n$")); for (auto& a : c.argv) { size_t z; while ((z = a.find('\0')) != std::string::npos) a.erase(z, 1); }
    c.script = program(2, i > 0 || o.in != 0, endless, may_ignore, o.out == 0 && o.err == 0 && !P->signals); total += script_len(*c.script); if (P->failures && chance(120)) { c.script = nullptr; } o.cmds.push_back(c);
    std::vector<const char*> av; for (auto& a : c.argv) av.push_back(a.c_str()); av.push_back(nullptr); std::string line = quoted(c.argv); const char* vl[2] = {line.c_str(), nullptr}; int r; if (i == 0) { Unscope u; kwiversysProcess_SetOption(o.cp, kwiversysProcess_Option_Verbatim, verbatim); }
    oom(true); api(o, i ? "AddCommand" : "SetCommand", [&] { r = i ? kwiversysProcess_AddCommand(o.cp, verbatim ? vl : av.data()) : kwiversysProcess_SetCommand(o.cp, verbatim ? vl : av.data()); }); bool f = oomed(); REQUIRE(r || f, "command-refused", "%s", i ? "AddCommand fails" : "SetCommand fails"); REQUIRE(!r || !f, "command-accepted", "a command is accepted although memory ran out"); if (!r) { o.cmds.pop_back(); if (i == 0) first_ok = false; break; } if (!c.script) unexec = true; }
  if (!first_ok) return false;
  if (verbatim && chance(60)) { const char* e[2] = {pick(std::vector<std::string>{"", " ", "\t\n"}).c_str(), nullptr}; std::string es = e[0] ? " " : ""; const char* ev_[2] = {es.c_str(), nullptr}; int r; api(o, "AddCommand (empty)", [&] { r = kwiversysProcess_AddCommand(o.cp, ev_); }); REQUIRE(!r, "command-accepted", "an empty command line is accepted"); probe("empty_command_line"); }
  o.fin = "in.txt"; o.fout = strf("out%d.txt", o.id); o.ferr = strf("/work/err%d.txt", o.id); std::string wd = o.wd.empty() ? "/home" : normal(o.wd, "/home"); if (P->failures && chance(60)) { o.wd = "/missing"; unexec = true; } if (o.in == 1) { if (P->failures && chance(150)) { o.fin = "none.txt"; unexec = true; } } if (o.out == 1 && P->failures && chance(150)) { o.fout = "nodir/x"; unexec = true; }
  int p[2]; auto native = [&](int which, int fds[2], D& end, bool input) { pk_pipe(fds); auto& q = tester->fds[fds[0]].d->p; q->cap = 65536; for (int k = 0; k < 2; ++k) tester->fds[fds[k]].d->name = strf("native%d", which); end = tester->fds[fds[input ? 0 : 1]].d; };
  bool mem_ok = true; auto setfile = [&](int which, const std::string& f) { int r; oom(true); api(o, "SetPipeFile", [&] { r = kwiversysProcess_SetPipeFile(o.cp, which, f.c_str()); }); bool fl = oomed(); REQUIRE(r || fl, "option-refused", "SetPipeFile fails"); if (!r) mem_ok = false; };
  auto F0 = F; F.budget = 0; std::vector<int> order = {0, 1, 2, 3}; int r = 1;
  auto junk = [&](int w) { while (chance(150)) switch (choose(3)) { case 0: setfile(w, "/work/never"); break; case 1: { int bad[2] = {77, 78}; Unscope u; kwiversysProcess_SetPipeNative(o.cp, w, bad); break; } case 2: { Unscope u; kwiversysProcess_SetPipeShared(o.cp, w, 1); break; } } probe("pipe_set_twice"); };
  junk(kwiversysProcess_Pipe_STDIN);
  { int in = o.in; if (in == 1) setfile(kwiversysProcess_Pipe_STDIN, o.fin); else if (in == 2) { native(0, o.ninfd, o.nin, true); Unscope u; kwiversysProcess_SetPipeNative(o.cp, kwiversysProcess_Pipe_STDIN, o.ninfd); } else if (in == 0 && chance(500)) { Unscope u; kwiversysProcess_SetPipeShared(o.cp, kwiversysProcess_Pipe_STDIN, 1); } else { Unscope u; kwiversysProcess_SetPipeFile(o.cp, kwiversysProcess_Pipe_STDIN, 0); kwiversysProcess_SetPipeNative(o.cp, kwiversysProcess_Pipe_STDIN, 0); kwiversysProcess_SetPipeShared(o.cp, kwiversysProcess_Pipe_STDIN, in == 0); } }
  for (int k = 0; k < 2; ++k) { int m = k ? o.err : o.out, w = k ? kwiversysProcess_Pipe_STDERR : kwiversysProcess_Pipe_STDOUT; junk(w); if (m == 1) { setfile(w, k ? o.ferr : o.fout); std::string fp = normal(k ? o.ferr : o.fout, wd); if (chance(500) && dirs.count(dirname_of(fp))) { auto f = std::make_shared<File>(); f->data = std::string(range(1, 3000), '~'); files[fp] = f; probe("file_had_content"); } } else if (m == 3) { native(w, k ? o.nerrfd : o.noutfd, k ? o.nerr : o.nout, false); Unscope u; kwiversysProcess_SetPipeNative(o.cp, w, k ? o.nerrfd : o.noutfd); } else if (m == 2 && chance(500)) { Unscope u; kwiversysProcess_SetPipeShared(o.cp, w, 1); } else { Unscope u; kwiversysProcess_SetPipeFile(o.cp, w, 0); kwiversysProcess_SetPipeNative(o.cp, w, 0); kwiversysProcess_SetPipeShared(o.cp, w, m == 2); } }
  oom(true); api(o, "SetWorkingDirectory", [&] { r = kwiversysProcess_SetWorkingDirectory(o.cp, o.wd.empty() ? nullptr : o.wd.c_str()); }); bool fl = oomed(); REQUIRE(r || fl, "option-refused", "SetWorkingDirectory fails"); if (!r) mem_ok = false;
  { Unscope u; kwiversysProcess_SetOption(o.cp, kwiversysProcess_Option_Detach, o.detach); kwiversysProcess_SetOption(o.cp, kwiversysProcess_Option_MergeOutput, o.merge); kwiversysProcess_SetOption(o.cp, kwiversysProcess_Option_CreateProcessGroup, o.group); kwiversysProcess_SetTimeout(o.cp, o.timeout > 0 ? o.timeout : chance(200) ? -0.25 - choose(3) : 0.0); REQUIRE(!!kwiversysProcess_GetOption(o.cp, kwiversysProcess_Option_Detach) == o.detach && !!kwiversysProcess_GetOption(o.cp, kwiversysProcess_Option_MergeOutput) == o.merge && !!kwiversysProcess_GetOption(o.cp, kwiversysProcess_Option_CreateProcessGroup) == o.group, "option-refused", "an option reads back differently"); }
  F = F0; (void)p; (void)order; return mem_ok; }
void drop(int fd) { auto i = tester->fds.find(fd); if (i != tester->fds.end() && i->second.d->name.find("native") == 0) tester->fds.erase(i); }
void close_natives(Obj& o, bool failed) { if (o.in == 2) { if (!failed) { Desc* d = fdof(tester, o.ninfd[1]); if (d) { std::string t = blob(choose(60)); put(*d, t.data(), t.size()); } } drop(o.ninfd[0]); drop(o.ninfd[1]); } if (o.out == 3) { if (failed) drop(o.noutfd[0]); drop(o.noutfd[1]); } if (o.err == 3) { if (failed) drop(o.nerrfd[0]); drop(o.nerrfd[1]); } }
void unset_natives(Obj& o) { if (chance(400)) return; Unscope u; for (int w : {kwiversysProcess_Pipe_STDIN, kwiversysProcess_Pipe_STDOUT, kwiversysProcess_Pipe_STDERR}) kwiversysProcess_SetPipeNative(o.cp, w, 0); }
void drain_natives(Obj& o) { for (int k = 0; k < 2; ++k) if ((k ? o.err : o.out) == 3) { int fd = (k ? o.nerrfd : o.noutfd)[0]; drop(fd); } }
void execute(Obj& o) {
  hard_faults = 0; int f0 = 0; for (auto& f : fired) f0 += f.second; ns a = g_now_ns; bool fit = !P->oom; (void)fit; int ncmd = (int)o.cmds.size(); if (o.in == 2 || o.out == 3 || o.err == 3) { for (int* p : {o.in == 2 ? o.ninfd : nullptr, o.out == 3 ? o.noutfd : nullptr, o.err == 3 ? o.nerrfd : nullptr}) if (p) for (int k = 0; k < 2; ++k) base_fds.erase(p[k]); }
  o.uid0 = (int)recs.size(); if (o.detach) reuse_pids = false; o.started = 0; o.t0 = a; if (P->failures && chance(600)) F.budget = 1 + choose(2); oom(true); o.ended = false; Obj* self = &o; o.started = 0;
  api(o, "Execute", [&] { kwiversysProcess_Execute(self->cp); }); bool f = oomed(); if (P->failures) F.budget = 0;
  int st; std::string es; { Unscope u; st = kwiversysProcess_GetState(o.cp); const char* e = kwiversysProcess_GetErrorString(o.cp); { Scope s; es = e; } } ev("  -> state %d '%s'", st, es.c_str());
  if (st == kwiversysProcess_State_Error) { bool fault = hard_faults || f; REQUIRE(fault || unexec || tester->st == ZOMBIE, "start-failed", "Execute of object %d fails without any reason: %s", o.id, es.c_str()); REQUIRE(!es.empty(), "no-error-text", "Execute fails without a message"); if (!fault) REQUIRE(es == strerror(ENOENT), "wrong-error-text", "Execute of something that does not exist reports '%s'", quote(es).c_str()); if (f && !hard_faults && !unexec) REQUIRE(!es.empty(), "no-error-text", "no message");
    o.ended = true; count("start_failures"); nontrivial(); close_natives(o, true); unset_natives(o); containment(o, "the failed start"); invariants("the failed start"); o.started = 0; return; }
  REQUIRE(st == kwiversysProcess_State_Executing, "wrong-state", "after Execute object %d is in state %d", o.id, st); REQUIRE(!unexec, "missing-program-started", "Execute of object %d succeeds although a program or directory is missing", o.id); REQUIRE(o.started == ncmd, "not-started", "%d of %d programs of object %d were started", o.started, ncmd, o.id); REQUIRE(!f, "started-without-memory", "Execute succeeds although an allocation failed");
  close_natives(o, false); unset_natives(o); for (int k = 0; k < 2; ++k) if ((k ? o.err : o.out) == 3) { int fd = (k ? o.nerrfd : o.noutfd)[0]; if (tester->fds.count(fd)) base_fds[fd] = tester->fds[fd]; }
  int t = 0; for (auto& c : o.cmds) { Proc* p = find(recs[c.uid].pid); (void)p; ++t; } count("started"); invariants("Execute"); if (chance(200)) { ev("  second Execute while executing"); api(o, "Execute (again)", [&] { kwiversysProcess_Execute(self->cp); }); REQUIRE(o.started == ncmd, "started-twice", "Execute on an executing object starts programs"); } }
void end_obj(Obj& o) { if (o.out == 3) { base_fds.erase(o.noutfd[0]); drop(o.noutfd[0]); } if (o.err == 3) { base_fds.erase(o.nerrfd[0]); drop(o.nerrfd[0]); } o.started = 0; }
bool endless(const Script& s, bool top = true) { for (auto& op : s.ops) { if (op.k == FOREVER) return true; if (op.child && endless(*op.child, false)) return true; } return false; }
bool endless(Obj& o) { for (auto& c : o.cmds) if (c.script && endless(*c.script)) return true; return false; }
void settle(Obj& o) {   // bring an executing object to its end
  if (o.detach && chance(600)) { api(o, "Disown", [&] { kwiversysProcess_Disown(o.cp); }); int st; { Unscope u; st = kwiversysProcess_GetState(o.cp); } if (o.killed || o.expired || st == kwiversysProcess_State_Executing) { int k = 0; while (!o.ended && ++k < 200) wait_exit(o, false); } else { REQUIRE(st == kwiversysProcess_State_Disowned, "wrong-state", "after Disown the state is %d", st); o.ended = true; o.disowned = true; nontrivial(); count("disowned"); invariants("Disown"); for (auto& c : o.cmds) REQUIRE(!recs[c.uid].by_tester, "disowned-killed", "a disowned program was killed"); } return; }
  bool need = endless(o) && !(o.timeout > 0 && o.timeout < 100); if (o.detach && need && !o.killed) { kill_it(o); }
  if (need && !o.killed) { for (int i = choose(4); i > 0; --i) { if (chance(500)) { ns t = range(1, 300) * MS; pk_usleep(t / US); } else wait_data(o, true); } if (!o.ended) kill_it(o); }
  if (!o.killed && chance(650)) for (int k = 0; k < 5000 && !o.interrupted; ++k) wait_data(o, o.timeout == 0 ? chance(400) : chance(300));
  for (int k = 0; k < 5000 && !o.ended; ++k) wait_exit(o, chance(300)); }
void step(Obj& o) {
  bool live = o.started > 0 && !o.ended;
  if (!live) { if (o.finished) return; if (!configure(o)) { if (o.cp) { close_natives(o, true); unset_natives(o); } return; } execute(o); if (o.ended) end_obj(o); return; }
  switch (weighted({6, 3, P->kills ? 2u : 0u, 1, P->signals && o.group ? 2u : 0u, 1, 2, o.stealing && !o.detach && !o.killed && !o.expired ? 3u : 0u})) {
    case 0: wait_data(o, endless(o) || chance(600)); break;
    case 1: if (endless(o) && o.timeout == 0 && !o.killed) wait_exit(o, true); else wait_exit(o, chance(700)); break;
    case 2: kill_it(o); break;
    case 3: { Unscope u; kwiversysProcess_GetState(o.cp); kwiversysProcess_GetExitValue(o.cp); kwiversysProcess_GetErrorString(o.cp); } break;
    case 4: api(o, "Interrupt", [&] { kwiversysProcess_Interrupt(o.cp); }); count("interrupts"); break;
    case 5: if (o.detach || !endless(o) || o.timeout > 0) { settle(o); } break;
    case 7: for (auto& q : procs) { Proc* z = q.second.get(); if (z->ppid == tester->pid && z->st == ZOMBIE && z->obj == o.id && z->cmd >= 0) { ev("  another part of the program takes the status of [%d]", z->pid); o.stolen = true; reuse_pids = false; fault("status_taken_elsewhere"); vanish(z->pid); break; } } break;
    case 6: pk_usleep((chance(500) ? range(1, 2000) : range(2000, 400000))); break; }
  if (o.ended) end_obj(o); }
void driver() {
  int n = P->objs > 1 ? 1 + choose(P->objs) : 1; if (P->objs > 2 && chance(60)) { n = 4 + choose(7); probe("many_objects"); } for (int i = 0; i < n; ++i) { objs.emplace_back(new Obj); objs[i]->id = i; }
  if (n > 3) for (int i = 0; i < n; ++i) step(*objs[i]);
  int steps = n * (n > 3 ? range(1, 4) : range(2, 9)); for (int i = 0; i < steps; ++i) step(*objs[choose(n)]);
  for (auto& o : objs) if (o->started > 0 && !o->ended) { if (chance(100) && (!endless(*o) || o->killed || (o->timeout > 0 && o->timeout < 100)) ) { Obj& x = *o; x.ended = true; api(x, "Delete (executing)", [&] { kwiversysProcess_Delete(x.cp); }); x.cp = nullptr; count("deleted_while_executing"); for (auto& c : x.cmds) if (!x.detach) REQUIRE(recs[c.uid].exited, "ended-early", "Delete returns while a program is running"); end_obj(x); x.finished = true; invariants("Delete"); } else { settle(*o); end_obj(*o); } }
  for (auto& o : objs) { Obj& x = *o; if (x.cp) api(x, "Delete", [&] { kwiversysProcess_Delete(x.cp); }); x.cp = nullptr; }
  invariants("deleting all objects"); }
void enter() { driver(); tester_done = true; for (;;) to_kernel(); }
D named(Kind k, const char* n) { D d(new Desc); d->k = k; d->name = n; if (k == FI) d->f = std::make_shared<File>(); return d; }
void simulate(const Profile& pr) {
  Scope sc; P = &pr; procs.clear(); graveyard.clear(); recs.clear(); freed.clear(); objs.clear(); files.clear(); dirs.clear(); external.clear(); fired.clear(); memset(&F, 0, sizeof F); next_pid = 100; cur = loaded = tester = nullptr; tester_done = false; want_fork = false; stalled = 0; hard_faults = 0; in_handler = 0; cur_obj = -1; user_signals = 0; tty_out.clear(); tty_err.clear(); open_procdirs = open_files = open_ps = 0; g_now_ns += range(0, 999999) * US; wh = "setup";
  for (const char* d : {"/", "/home", "/home/wd", "/work"}) dirs.insert(d); for (const char* d : {"/home/in.txt", "/home/wd/in.txt", "/work/in.txt"}) { auto f = std::make_shared<File>(); f->data = blob(choose(300)); files[d] = f; }
  // other people's processes
  auto strange = [&](int ppid, int pgid) { Proc* s = make(1); s->ppid = ppid ? ppid : 1; s->stranger = true; s->pgid = pgid ? pgid : s->pid; s->sid = s->pgid; s->name = "stranger"; s->script = ScriptP(new Script); s->script->ops.push_back(Op{chance(500) ? SLEEP : FOREVER, 0, "", range(1, 900) * MS, nullptr}); s->cwd = "/"; return s; };
  { Proc* a = strange(0, 0); if (chance(500)) strange(a->pid, a->pid); }
  Proc* t = tester = make(1); t->ppid = 1; t->name = "tester"; t->pgid = t->sid = t->pid; t->cwd = "/home"; t->real = true; t->depth = 1; for (int i = 0; i < 3; ++i) t->fds[i] = Fd{named(TTY, strf("tty%d", i).c_str()), false}; if (chance(400)) t->fds[3 + choose(4)] = Fd{named(FI, "own"), chance(500)}; if (chance(200)) t->fds[9] = Fd{named(FI, "own"), true};
  mask0 = chance(300) ? 1ull << SIGUSR1 : 0; if (chance(150)) mask0 |= 1ull << SIGTERM; if (!pr.signals && chance(100)) mask0 |= 1ull << SIGINT; doomed.clear(); t->mask = mask0; for (int s : {SIGCHLD, SIGINT, SIGTERM, SIGUSR1, SIGPIPE}) { memset(&t->act[s], 0, sizeof t->act[s]); int w = weighted({4, 2, s == SIGPIPE || s == SIGUSR1 || s == SIGCHLD ? 1u : 0u}); if (w == 1) { t->act[s].sa_handler = user_handler; t->act[s].sa_flags = chance(500) ? SA_RESTART : 0; } else if (w == 2) t->act[s].sa_handler = SIG_IGN; } if (chance(300)) for (int s = 1; s < 32; ++s) if (s != SIGKILL && s != SIGSTOP && s != SIGCHLD && s != SIGINT && s != SIGTERM && s != SIGUSR1 && s != SIGPIPE && chance(250)) { t->act[s].sa_handler = chance(700) ? SIG_IGN : user_handler; probe("other_signals_changed"); } memcpy(act0, t->act, sizeof act0); base_fds = t->fds;
  if (pr.foreign && chance(600)) { Proc* f = make(t->pid); f->pgid = t->pgid; f->sid = t->sid; f->name = "foreign"; f->script = ScriptP(new Script); f->script->ops.push_back(Op{SLEEP, 0, "", range(1, 600) * MS, nullptr}); f->script->ops.push_back(Op{EXITOP, (int)choose(200), "", 0, nullptr}); f->cwd = "/"; if (t->act[SIGCHLD].sa_handler == SIG_IGN) t->act[SIGCHLD].sa_handler = act0[SIGCHLD].sa_handler = SIG_DFL; }
  reuse_pids = chance(500); sigs_async = pr.signals || chance(300); F.spurious = chance(300) ? 60 : 0; F.eintr = chance(400) ? 80 : 0; F.shrt = chance(400) ? 200 : 0; F.budget = 0; 
  // soft faults need a budget as well, they are not counted against it
  if (pr.failures) { auto sw = [&](int& f, int v) { f = chance(400) ? v : 0; }; sw(F.pipe, 80); sw(F.fork, 200); sw(F.fcntl, 60); sw(F.exec, 200); sw(F.setsid, 200); sw(F.chdir, 200); sw(F.getcwd, 300); sw(F.open, 300); }
  if (pr.kills || pr.timeouts) { F.opendir = chance(200) ? 500 : 0; F.procfs = chance(80) ? 100 : 0; F.popen = chance(80) ? 300 : 0; F.select = chance(120) ? 100 : 0; if (F.opendir || F.procfs || F.popen || F.select) F.budget = 1 + choose(4); }
  sigint_at_reap = pr.signals && chance(300); if (pr.signals) { int k = 1 + choose(2); for (int i = 0; i < k; ++i) external.push_back({g_now_ns + (chance(500) ? range(0, 3000) * US : range(1, 1500) * MS), chance(700) ? (chance(500) ? SIGINT : SIGTERM) : chance(500) ? SIGCHLD : SIGUSR1}); }
  static char* stk = nullptr; if (!stk) stk = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stk_lo = stk; stk_hi = stk + STK; void** sp = (void**)stk_hi; *--sp = nullptr; *--sp = (void*)enter; for (int i = 0; i < 6; ++i) *--sp = nullptr; t->sp = sp; loaded = t; g_hook = hook; g_hook_at = ~0ull;
  uint64_t live = alloc_live(); kernel_loop(); g_hook = nullptr;
  if (tester->st == ZOMBIE) { int s = WTERMSIG(tester_status); REQUIRE(pr.signals && WIFSIGNALED(tester_status), "parent-died", "the parent ends with status 0x%x", tester_status); REQUIRE(s == SIGINT || s == SIGTERM || s == SIGUSR1, "parent-died", "the parent dies of signal %d", s); probe(s == SIGINT ? "died_of_SIGINT" : s == SIGTERM ? "died_of_SIGTERM" : "died_of_SIGUSR1"); nontrivial();
    if (s != SIGUSR1) for (int u : doomed) if (!recs[u].exited) violation("children-survive-signal", "the parent dies of signal %d while process %d in the group of a child is alive", s, recs[u].pid);
    if (s != SIGUSR1) for (auto& q : procs) if (q.second->ppid == tester->pid && q.second->obj >= 0) violation("children-survive-signal", "the parent dies of signal %d while its child %d is %s", s, q.first, q.second->st == ZOMBIE ? "unreaped" : "alive"); end_run(); }
  if (alloc_live() != live) violation("memory-leak", "after all objects were deleted %llu blocks remain: %s", (unsigned long long)(alloc_live() - live), alloc_list(0).c_str());
  alloc_check_all(); }
const Profile C27{"C27", 1, false, false, false, true, false, false, false}, C28{"C28", 2, true, true, false, true, false, false, false}, C29{"C29", 2, false, true, false, true, true, true, true}, C30{"C30", 3, true, true, true, true, false, false, false}, C31{"C31", 2, true, true, false, true, true, true, false};
Reg r27("C27", [] { simulate(C27); }), r28("C28", [] { simulate(C28); }), r29("C29", [] { simulate(C29); }), r30("C30", [] { simulate(C30); }), r31("C31", [] { simulate(C31); });
}

// In-memory file system with fault injection, reached by interposing the libc calls.
#pragma once
#include "core.h"
#include <map>
#include <memory>
#include <vector>
#include <string>
#include <cstdint>
namespace sim { namespace vfs {
enum Type { FILE_, DIR_, LINK_ };
struct Inode { Type type; unsigned mode; uint64_t ino; int nlink = 1; uint64_t dev = 7; int64_t mtime = 0, atime = 0; std::string data; std::map<std::string, std::shared_ptr<Inode>> kids; };
typedef std::shared_ptr<Inode> Node;
struct Faults {                 // per-mille rates; 0 = never
  uint32_t open_err = 0, read_err = 0, read_short = 0, eintr = 0, write_err = 0, write_short = 0, close_err = 0, stat_err = 0,
           access_err = 0, mkdir_err = 0, unlink_err = 0, rmdir_err = 0, readdir_err = 0, opendir_err = 0, chmod_err = 0, rename_err = 0, other_err = 0;
  int64_t capacity = -1;        // bytes of free space (-1 unlimited)
  int budget = 0;               // max number of faults in the run
  int fd_limit = 64; bool fd_per_thread = false;   // per thread: a file that includes itself does not exhaust the others
  std::string only;             // restrict error faults to paths with this prefix
};
extern Faults F;
struct Fired { std::string kind, path; };
extern std::vector<Fired> fired;       // every injected fault since last clear
extern int hard;                        // number of injected errors (not EINTR/short)
extern std::string cwd;
extern bool as_root;                    // ignore permission bits
extern int max_open;                    // high-water mark
void reset();
void faults_off();                      // keep statistics, stop injecting
void swarm(bool reads, bool writes, bool meta); // draw a random fault mix
int open_fds();
bool put(const std::string& path, const std::string& data, unsigned mode = 0644);  // creates parents
bool mkdirs(const std::string& path, unsigned mode = 0755);
bool put_link(const std::string& path, const std::string& target);
bool put_hard(const std::string& path, const std::string& existing);   // another name of the same file
bool get(const std::string& path, std::string* data);
bool exists(const std::string& path);
bool remove_all(const std::string& path);
std::string phys(const std::string& path, bool follow);   // name without links and dots; of the place to create for a missing last part; "" if unreachable
int open_dirs();
struct Ent { Type type; unsigned mode; std::string data; uint64_t ino; int64_t mtime; };
typedef std::map<std::string, Ent> Snap;
Snap snap(const std::string& path);         // everything below and including path
Node lookup(const std::string& path, bool follow = true, int* err = nullptr);
std::string dump(const std::string& path);   // recursive listing "path type mode data\n"
bool hard_on(const std::string& prefix);     // any injected error on this path prefix
int64_t used();
bool virtual_fd(int fd);
}}

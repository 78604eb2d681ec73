// Simulated dynamic loader (dlopen/dlsym/dlclose/dlerror).
#pragma once
#include "core.h"
#include <map>
#include <string>
#include <vector>
namespace sim { namespace dl {
struct Lib { std::map<std::string, void*> syms; std::string broken; int opens = 0, closes = 0, calls = 0; };
extern std::map<std::string, Lib> libs;      // by the exact path given to dlopen
extern uint32_t open_err;                    // per-mille injected failures
extern int budget;
extern std::vector<std::string> failed;      // paths whose open failed by injection
extern std::map<std::string, int> attempts;   // dlopen calls per path
extern std::vector<std::string> order;           // every dlopen, in order
bool loaded(const std::string& path);
void reset();
}}

// Runs code in child processes (or threads of one child) under a system call
// stepper: the caller sees every system call of the code before and after it
// happens, decides which task moves next, and can make a call fail, shorten
// it, misreport a file size, or kill the process there.
#ifndef VERIF_LIB_SYSFAULT_H_
#define VERIF_LIB_SYSFAULT_H_

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sysfault {

enum Kind { kOther, kOpen, kRead, kWrite, kClose, kRename, kLink, kUnlink, kSync, kTruncate, kStat, kSeek };
const char* kind_name(Kind k);

struct Stop {
  int task;       // index of the body
  bool entry;     // before or after the call
  Kind kind;
  long nr;
  uint64_t a[6];
  long ret;       // after the call
  int index;      // number of the task's system call, from 0
  std::string path;   // of the file named by the call or of its descriptor
  std::string path2;  // destination of a rename or link
};

struct Act {
  enum What { kGo, kFail, kFailAfter, kShorten, kSize, kKill } what = kGo;
  int64_t value = 0;  // errno, byte count or reported size
};

struct Options {
  bool threads = false;
  // Picks one of |n| runnable tasks.
  std::function<size_t(const std::vector<int>& runnable)> pick;
  std::function<Act(const Stop&)> on_stop;
};

struct Result {
  bool killed = false;    // by Act::kKill
  bool clean = false;     // every process exited with 0
  bool supported = true;  // tracing works here
  std::string text;       // standard error and fate of a process that did not
  int stops = 0;
};

// Runs every body to its end.  Files written by the bodies are real.
Result run(const std::vector<std::function<void()>>& bodies, const Options& o);

}  // namespace sysfault
#endif

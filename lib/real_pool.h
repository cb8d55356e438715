// Real threads (no generated schedule) for amounts of work that a generated
// schedule could not step through.
#ifndef VERIF_LIB_REAL_POOL_H_
#define VERIF_LIB_REAL_POOL_H_

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "amount.h"
#include "pbt.h"

namespace real {

class Latch {
 public:
  void open() {
    std::lock_guard l(m_);
    open_ = true;
    cv_.notify_all();
  }
  void wait() {
    std::unique_lock l(m_);
    cv_.wait(l, [this] { return open_; });
  }

 private:
  std::mutex m_;
  std::condition_variable cv_;
  bool open_ = false;
};

}  // namespace real
#endif

// Amounts for checks of counters and containers.
#ifndef VERIF_LIB_AMOUNT_H_
#define VERIF_LIB_AMOUNT_H_

#include "pbt.h"

namespace real {

// Mostly hundreds, often around the ranges of 8-bit and 16-bit numbers.
inline size_t gen_amount(pbt::Ctx& c, size_t lo = 1) {
  switch (c.weighted({4, 3, 3})) {
    case 0: return c.size(lo, 1500);
    case 1: return c.pick({size_t(128), size_t(256), size_t(32768), size_t(512)}) + c.size(0, 6) - 3;
    default: return 65536 + (c.flip() ? c.size(0, 6) - 3 : c.size(0, 4000));
  }
}

}  // namespace real
#endif

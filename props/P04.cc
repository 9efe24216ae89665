// P04: functions, parameters, this, recursion (reference interpreter).
#include "diff.h"
#include "fungen.h"
using namespace lang;
const char *PROP_ID = "P04";

void prop_case(Src &s, Case &c) {
  if (s.chance(3, 4)) {
    FunGen g(s);
    judge(c, g.program(), 20);
    return;
  }
  GenCfg cfg;
  cfg.stmts = (int) s.range(3, 9);
  cfg.depth = (int) s.range(2, 4);
  cfg.block_depth = (int) s.range(1, 3);
  cfg.fn_bias = 5;
  cfg.long_pct = s.chance(1, 8) ? 20 : 0;
  Gen g(s, cfg);
  judge(c, g.program());
}

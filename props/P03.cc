// P03: control flow follows the language (reference interpreter).
#include "ctlgen.h"
#include "diff.h"
using namespace lang;
const char *PROP_ID = "P03";

void prop_case(Src &s, Case &c) {
  if (s.chance(3, 4)) {
    CtlGen g(s);
    g.pad_pct = s.chance(1, 5) ? 1 : 0;
    judge(c, g.program(), 20);
    return;
  }
  GenCfg cfg;
  cfg.stmts = (int) s.range(2, 8);
  cfg.depth = (int) s.range(1, 2);
  cfg.block_depth = (int) s.range(2, 5);
  cfg.ctl_bias = 4;
  cfg.fn_bias = s.chance(1, 3) ? 2 : 0;
  cfg.funcs = cfg.fn_bias != 0;
  cfg.long_pct = s.chance(1, 8) ? 20 : 0;
  cfg.methods = s.chance(1, 3);
  Gen g(s, cfg);
  judge(c, g.program());
}

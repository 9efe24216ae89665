// P02: expressions evaluate as the language prescribes (reference interpreter).
#include "diff.h"
#include "exprgen.h"
using namespace lang;
const char *PROP_ID = "P02";

void prop_case(Src &s, Case &c) {
  std::vector<SP> prog;
  if (s.chance(2, 3)) {
    ExprGen g(s);
    prog = g.program(8, 5);
    c.label("untyped");
  } else {
    GenCfg cfg;
    cfg.stmts = 6;
    cfg.depth = 4;
    cfg.block_depth = 1;
    Gen g(s, cfg);
    prog = g.program();
    c.label("typed");
  }
  judge(c, prog);
}

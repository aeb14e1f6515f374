// Arithmetic programs over shared values against the plaintext ring.
#include "prog.h"
using namespace prog;
namespace {
const std::vector<std::pair<Op, int>> kShapeOps = {{TRANSPOSE, 2}, {RESHAPE, 2}, {SLICE, 2}, {BROADCAST, 2}, {REVERSE, 1}, {PAD, 1}, {UPDATE, 1}, {CONCAT, 1}};
Options arith() {
  Options o;
  o.weights = {{ADD, 6}, {SUB, 5}, {MUL, 9}, {NEG, 3}, {SQUARE, 4}, {MMUL, 7}, {TDOT, 4}, {LSHIFT, 2}, {TO_S, 2}, {TO_V, 2}, {TO_P, 1}, {MSB, 1}, {PREFER_B, 1}, {MUX, 1}};
  for (auto& s : kShapeOps) o.weights.push_back(s);
  return o;
}
void one(Gen& g, std::vector<int> protos) {
  auto e = genv(g, protos);
  Program p(g, e, arith());
  bool mulish = false;
  for (auto& x : p.n) mulish = mulish || (x.vis == 'S' && !x.v.empty() && (x.op == MUL || x.op == SQUARE || x.op == MMUL || x.op == TDOT));
  g.nontrivial(mulish && e.proto != kRef2k);
  p.check(g);
}
}  // namespace
PBT(C15, programs, 20000, 400000, "a non-empty secret product under a sharing protocol") { one(g, {kSemi2k, kAby3, kSecurenn, kSwift, kSpdz2k, kCheetah, kRef2k}); }

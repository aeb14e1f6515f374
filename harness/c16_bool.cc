// Boolean, comparison, shift and conversion programs against plaintext bits.
#include "prog.h"
using namespace prog;
namespace {
Options boolean() {
  Options o;
  o.weights = {{AND, 7}, {XOR, 7}, {OR, 3}, {NOT, 4}, {LSHIFT, 4}, {RSHIFT, 5}, {ARSHIFT, 5}, {BITREV, 3}, {DEINTL, 2}, {MSB, 5}, {EQUAL, 5}, {LESS, 4}, {MUX, 4}, {SIGN, 2},
               {PARITY, 2}, {POPCOUNT, 2}, {PREFIXOR, 2}, {PREFER_A, 5}, {PREFER_B, 5}, {ADD_BB, 3}, {CLAMP, 1}, {ADD, 3}, {SUB, 1}, {NEG, 1}, {MUL, 3},
               {TO_S, 2}, {TO_V, 2}, {TO_P, 1}, {TRANSPOSE, 1}, {SLICE, 1}, {BROADCAST, 1}, {RESHAPE, 1}, {REVERSE, 1}};
  o.pbit = 0.3;
  o.cap = 24;
  return o;
}
}  // namespace
PBT(C16, programs, 6000, 150000, "a non-empty secret boolean operation under a sharing protocol") {
  auto e = genv(g);
  Program p(g, e, boolean());
  bool b = false;
  for (auto& x : p.n) b = b || (x.vis == 'S' && !x.v.empty() && x.op >= AND && x.op <= CLAMP);
  g.nontrivial(b && e.proto != kRef2k);
  p.check(g);
}

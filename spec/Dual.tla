--------------------------------- MODULE Dual ---------------------------------
(* The algebra R[e1, .., eK] with ek^2 = 0 over a ring R.                      *)
(*                                                                             *)
(* An element of level K is a pair <<x, y>> of elements of level K-1, meaning  *)
(* x + eK y; an element of level 0 is an element of R.  The coefficient of     *)
(* the product of some generators is the mixed derivative in the directions    *)
(* attached to them, so all derivatives up to order K are exact.               *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS CAdd(_, _), CMul(_, _), CNeg(_), CZero

RECURSIVE DConst(_, _), DAdd(_, _, _), DNeg(_, _), DMul(_, _, _), DScale(_, _, _)
DConst(k, c) == IF k = 0 THEN c ELSE TLCEval(<<DConst(k - 1, c), DConst(k - 1, CZero)>>)
DAdd(k, a, b) == IF k = 0 THEN CAdd(a, b)
                 ELSE TLCEval(<<DAdd(k - 1, a[1], b[1]), DAdd(k - 1, a[2], b[2])>>)
DNeg(k, a) == IF k = 0 THEN CNeg(a) ELSE TLCEval(<<DNeg(k - 1, a[1]), DNeg(k - 1, a[2])>>)
DMul(k, a, b) ==
  IF k = 0 THEN CMul(a, b)
  ELSE TLCEval(<<DMul(k - 1, a[1], b[1]),
                 DAdd(k - 1, DMul(k - 1, a[1], b[2]), DMul(k - 1, a[2], b[1]))>>)
DScale(k, c, a) == IF k = 0 THEN CMul(c, a)
                   ELSE TLCEval(<<DScale(k - 1, c, a[1]), DScale(k - 1, c, a[2])>>)
DZero(k) == DConst(k, CZero)
DSub(k, a, b) == DAdd(k, a, DNeg(k, b))
DSum(k, s) == FoldLeft(LAMBDA acc, x : DAdd(k, acc, x), DZero(k), s)

RECURSIVE DReal(_, _)
DReal(k, a) == IF k = 0 THEN a ELSE DReal(k - 1, a[1])

\* f(a), where ds are the value and the derivatives of f at the real part of a
RECURSIVE DLift(_, _, _)
DLift(k, ds, a) ==
  IF k = 0 THEN ds[1]
  ELSE TLCEval(<<DLift(k - 1, ds, a[1]),
                 DMul(k - 1, a[2], DLift(k - 1, Tail(ds), a[1]))>>)

\* the 2^K coefficients; position 1 + sum of 2^(k-1) over the generators ek
RECURSIVE DFlat(_, _)
DFlat(k, a) == IF k = 0 THEN <<a>> ELSE DFlat(k - 1, a[1]) \o DFlat(k - 1, a[2])
\* an element with the given value and directions v[1], .., v[K]
RECURSIVE DVar(_, _, _)
DVar(k, c, v) == IF k = 0 THEN c ELSE TLCEval(<<DVar(k - 1, c, v), DConst(k - 1, v[k])>>)
===============================================================================

------------------------------ MODULE Monoids ------------------------------
(* The scalar operations of the library, on the integer encoding the harness logs.
   Values are exact integers; TOP/-TOP stand for the largest/smallest value of the element type
   (the identities of min and max); BAD marks a value that is not a multiple of the scale the inputs had,
   and equals nothing the specification can produce.  With en = 1 products are taken modulo MODP. *)
EXTENDS Integers, Sequences
TOP == 2000000000
MODP == 32749
OpAdd == 0  OpMul == 1  OpMin == 2  OpMax == 3  OpBpr == 4

Identity(op) == CASE op = OpAdd -> 0 [] op = OpMul -> 1 [] op = OpMin -> TOP [] op = OpMax -> -TOP [] op = OpBpr -> 0

\* common bit prefix: drop low bits of the larger until the two agree; 0 stands for "no value yet"
RECURSIVE Prefix(_, _)
Prefix(a, b) == IF a = b THEN a ELSE IF a < b THEN Prefix(a, b \div 2) ELSE Prefix(a \div 2, b)
Bpr(a, b) == IF b = 0 THEN a ELSE IF a = 0 THEN b ELSE Prefix(a, b)

Combine(op, en, a, b) ==
  CASE op = OpAdd -> a + b
    [] op = OpMul -> IF en = 1 THEN (a * b) % MODP ELSE a * b
    [] op = OpMin -> IF b < a THEN b ELSE a
    [] op = OpMax -> IF b > a THEN b ELSE a
    [] op = OpBpr -> Bpr(a, b)

RECURSIVE FoldVals(_, _, _, _)
FoldVals(op, en, acc, s) == IF s = <<>> THEN acc ELSE FoldVals(op, en, Combine(op, en, acc, Head(s)), Tail(s))
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
=============================================================================

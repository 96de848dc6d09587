------------------------------- MODULE Cubic -------------------------------
(* Objective functions with exact derivatives.                              *)
(* f = [l, h, c, x0] is, with u = x - x0,                                   *)
(*      sum l_i u_i + 1/2 sum h_ij u_i u_j + sum c_ij u_i^2 u_j             *)
(* with h symmetric.  Every polynomial of degree three without products of  *)
(* three different variables is of this form up to a constant.              *)
EXTENDS Rat

Half == <<1, 2>>
Off0(f, x) == VSub(x, f.x0)
Quad(m, u, v) == Dot(u, MVec(m, v))

CF(f, x) ==
  LET u == Off0(f, x)
      u2 == VHad(u, u)
  IN  RAdd(Dot(f.l, u), RAdd(RMul(Half, Quad(f.h, u, u)), Quad(f.c, u2, u)))
CG(f, x) ==
  LET u == Off0(f, x)
      u2 == VHad(u, u)
  IN  VAdd(VAdd(f.l, MVec(f.h, u)),
           VAdd(VScale(Two, VHad(u, MVec(f.c, u))), MVec(Transp(f.c), u2)))
CH(f, x) ==
  LET u == Off0(f, x)
      cu == MVec(f.c, u)
      n == Len(u)
  IN  MTab(n, n, LAMBDA k, m :
        RAdd(RAdd(f.h[k][m], IF k = m THEN RMul(Two, cu[k]) ELSE Zero),
             RMul(Two, RAdd(RMul(f.c[k][m], u[k]), RMul(f.c[m][k], u[m])))))

\* The same function over jets.
CJ(f, x) ==
  LET u == Tab(Len(x), LAMBDA i : JSub(x[i], JConst(f.x0[i])))
      n == Len(u)
      lin == JSum(Tab(n, LAMBDA i : JScale(f.l[i], u[i])))
      quad == JSum(Tab(n, LAMBDA i : JMul(u[i], JSum(Tab(n, LAMBDA j : JScale(f.h[i][j], u[j]))))))
      cub == JSum(Tab(n, LAMBDA i : JMul(JMul(u[i], u[i]),
                                         JSum(Tab(n, LAMBDA j : JScale(f.c[i][j], u[j]))))))
  IN  JAdd(lin, JAdd(JScale(Half, quad), cub))

\* The closed forms are the derivatives: checked in all coordinate directions.
DerivativesRight(f, x) ==
  LET n == Len(x)
      J(k, m) == CJ(f, Tab(n, LAMBDA i : <<x[i], IF i = k THEN One ELSE Zero,
                                           IF i = m THEN One ELSE Zero, Zero>>))
  IN  \A k \in 1..n : \A m \in 1..k :
        J(k, m) = <<CF(f, x), CG(f, x)[k], CG(f, x)[m], CH(f, x)[k][m]>>
=============================================================================

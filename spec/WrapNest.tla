------------------------------ MODULE WrapNest ------------------------------
(* Calls under way.  Several wrapped functions ws (see Wrap) share an original *)
(* function, which may call any of them again before it returns, and several  *)
(* threads may do so at a time.  st[t] is the stack of the calls under way in *)
(* thread t, outermost first: [w, args, seen], where seen is what the         *)
(* original was called with.  The original of the innermost call is running.  *)
EXTENDS Patterns
VARIABLES ws, st, out
nvars == <<ws, st, out>>

W == INSTANCE Wrap WITH w <- 0, call <- 0, pc <- 0, acc <- 0, pos <- 0, last <- 0, seen <- 0

\* The values xs after one side, or what refuses them.
Through(s, xs) ==
  IF s.on /\ \E i \in 1..Len(s.pats) : W!Numbers(s)[i] >= Len(xs) THEN Err("ValueError")
  ELSE LET m == W!Mapped(s, xs)
       IN  IF W!AllOk(m) THEN Ok(W!Parts(m)) ELSE Err("ValueError")
Result(s, rets, tuple) ==
  IF s.on /\ ~tuple /\ W!Numbers(s) # <<0>> THEN Err("ValueError") ELSE Through(s, rets)

Top(t) == st[t][Len(st[t])]
Pop(t) == [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

\* Thread t calls function i; the original is reached, or the call refused.
Enter(t, i, args) ==
  LET r == Through(ws[i].ins, args)
  IN  /\ ws' = ws
      /\ st' = IF r.st = "ok"
               THEN [st EXCEPT ![t] = Append(@, [w |-> i, args |-> args, seen |-> r.x])] ELSE st
      /\ out' = [st |-> IF r.st = "ok" THEN "seen" ELSE "ValueError",
                 x |-> IF r.st = "ok" THEN r.x ELSE <<>>]
\* The original that thread t is running returns.
Leave(t, rets, tuple) ==
  /\ st[t] # <<>>
  /\ LET r == Result(ws[Top(t).w].outs, rets, tuple)
     IN  out' = [st |-> r.st, x |-> IF r.st = "ok" THEN r.x ELSE <<>>]
  /\ st' = Pop(t)
  /\ ws' = ws
\* It raises: the call does, too.
Throw(t) ==
  /\ st[t] # <<>>
  /\ st' = Pop(t)
  /\ out' = [st |-> "thrown", x |-> <<>>]
  /\ ws' = ws

Do(o) == CASE o.op = "enter" -> Enter(o.t, o.w, o.args)
           [] o.op = "leave" -> Leave(o.t, o.rets, o.tuple)
           [] OTHER -> Throw(o.t)
\* (A step names the function whose call it is meant to end.)
Can(o) == IF o.op = "enter" THEN TRUE ELSE st[o.t] # <<>> /\ Top(o.t).w = o.w

----------------------------------------------------------------------------
\* What the original sees depends on nothing but the call itself.
Alone == \A t \in 1..Len(st) : \A i \in 1..Len(st[t]) :
  LET f == st[t][i] IN Ok(f.seen) = Through(ws[f.w].ins, f.args)
\* A step concerns the innermost call of one thread.
Others(a, b) ==
  /\ Cardinality({t \in 1..Len(a) : a[t] # b[t]}) <= 1
  /\ \A t \in 1..Len(a) :
       LET m == IF Len(a[t]) < Len(b[t]) THEN Len(a[t]) ELSE Len(b[t])
       IN  /\ SubSeq(a[t], 1, m) = SubSeq(b[t], 1, m)
           /\ Len(a[t]) - m <= 1 /\ Len(b[t]) - m <= 1
Inner == [][Others(st, st')]_nvars
=============================================================================

------------------------------ MODULE WrapStack ------------------------------
(* Wrappers of wrappers.  ws is a stack of wrappers (see Wrap), outermost     *)
(* first; the original function is below the last one.  A call travels down   *)
(* through the input sides and its return values up through the output sides; *)
(* the conversions of one wrapper (a loop in Wrap) are one step here.         *)
EXTENDS Patterns
VARIABLES ws, call, lvl, way, cur, seen, out
kvars == <<ws, call, lvl, way, cur, seen, out>>
\* way: "none", "idle", "down", "up" or "refused"; lvl: wrappers passed
\* so far (down), still to be passed (up).

W == INSTANCE Wrap WITH w <- 0, pc <- 0, acc <- 0, pos <- 0, last <- 0

New(x) == /\ way = "none"
          /\ ws' = x
          /\ IF \A i \in 1..Len(x) : W!SideOk(x[i].ins) /\ W!SideOk(x[i].outs)
             THEN way' = "idle" /\ out' = Ok(<<>>)
             ELSE way' = "refused" /\ out' = Err("ValueError")
          /\ UNCHANGED <<call, lvl, cur, seen>>
Begin(c) == /\ way = "idle"
            /\ call' = c /\ way' = "down" /\ lvl' = 0 /\ cur' = c.args /\ seen' = <<>>
            /\ out' = Ok(<<>>)
            /\ ws' = ws

\* The values xs after one side, or what refuses them.
Through(s, xs) ==
  IF s.on /\ \E i \in 1..Len(s.pats) : W!Numbers(s)[i] >= Len(xs) THEN Err("ValueError")
  ELSE LET m == W!Mapped(s, xs)
       IN  IF W!AllOk(m) THEN Ok(W!Parts(m)) ELSE Err("ValueError")
Move(r, l) ==
  IF r.st = "ok" THEN cur' = r.x /\ lvl' = l /\ UNCHANGED <<way, out>>
  ELSE way' = "idle" /\ out' = r /\ UNCHANGED <<cur, lvl>>

Down == /\ way = "down" /\ lvl < Len(ws)
        /\ Move(Through(ws[lvl + 1].ins, cur), lvl + 1)
        /\ UNCHANGED <<ws, call, seen>>
Original == /\ way = "down" /\ lvl = Len(ws)
            /\ seen' = Append(seen, cur)
            /\ cur' = call.rets /\ way' = "up"
            /\ UNCHANGED <<ws, call, lvl, out>>
Up == /\ way = "up" /\ lvl > 0
      /\ LET s == ws[lvl].outs
         IN  Move(IF s.on /\ ~call.tuple /\ W!Numbers(s) # <<0>> THEN Err("ValueError")
                  ELSE Through(s, cur), lvl - 1)
      /\ UNCHANGED <<ws, call, seen>>
Back == /\ way = "up" /\ lvl = 0
        /\ way' = "idle" /\ out' = Ok(cur)
        /\ UNCHANGED <<ws, call, lvl, cur, seen>>
Ends == way # "idle" /\ way' \in {"idle", "refused"}

----------------------------------------------------------------------------
RECURSIVE Chain(_, _)
\* Through several sides in turn.
Chain(ss, xs) ==
  IF ss = <<>> THEN Ok(xs)
  ELSE LET r == Through(ss[1], xs) IN IF r.st = "ok" THEN Chain(Tail(ss), r.x) ELSE r
Ins == Tab(Len(ws), LAMBDA i : ws[i].ins)
Outs == Tab(Len(ws), LAMBDA i : ws[Len(ws) + 1 - i].outs)

CalledOnce ==
  /\ Len(seen) <= 1
  /\ seen # <<>> => Ok(seen[1]) = Chain(Ins, call.args)
Result == (way = "idle" /\ out.st = "ok" /\ seen # <<>>) => out = Chain(Outs, call.rets)

\* Two input wrappers in a row that fold and flatten the same positions by the
\* same patterns cancel if their flags agree.
Undoes(s, t) ==
  /\ s.on /\ t.on /\ s.dir # t.dir /\ s.pats = t.pats /\ W!Numbers(s) = W!Numbers(t)
  /\ \A i \in 1..Len(s.pats) : Resolve(s.pats[i], W!FlagOf(s, i)) = Resolve(t.pats[i], W!FlagOf(t, i))
Cancel ==
  (seen # <<>> /\ Len(ws) = 2 /\ Undoes(ws[1].ins, ws[2].ins) /\ ws[1].ins.dir = "fold") =>
    \A j \in 1..Len(seen[1]) :
      seen[1][j].t = "x" => seen[1][j].v.a = call.args[j].v.a
==============================================================================

------------------------------- MODULE RangeMC -------------------------------
(* Which registers are read by one request, and what a refusal of the device teaches: registers are tried one by   *)
(* one (bits: up to BitRun in a row) until they answered once; registers that answered are read together, across   *)
(* holes while the device accepts them. All layouts of registers and all sets of addresses the device may have.    *)
EXTENDS LineRules, TLC
CONSTANTS N, MaxAddr, Lens, Hole, MaxRead, BitRun, Bits

VARIABLES regs,      \* sequence of [a, n], in the order of addresses
          has,       \* addresses the device has
          av, holes, \* what is known
          next,      \* the register to start with
          req        \* the last request: [a, n, set, ok]
vars == <<regs, has, av, holes, next, req>>

End(r) == r.a + r.n
Layouts == {q \in [1 .. N -> [a : 0 .. MaxAddr - 1, n : Lens]] :
              /\ \A k \in 1 .. N : End(q[k]) <= MaxAddr
              /\ \A k \in 1 .. N - 1 : End(q[k]) <= q[k + 1].a}
Init == /\ regs \in Layouts
        /\ has \in SUBSET (0 .. MaxAddr - 1)
        /\ av = [k \in 1 .. N |-> "?"] /\ holes = TRUE /\ next = 1
        /\ req = [a |-> 0, n |-> 0, set |-> {}, ok |-> TRUE]

MaxHole == IF holes THEN Hole ELSE 0
\* greedy: take the registers one after another while they fit
RECURSIVE Grow(_, _, _)
Grow(set, end, k) ==
  IF k > N THEN [set |-> set, end |-> end]
  ELSE IF av[k] = "n" THEN Grow(set, end, k + 1)
  ELSE LET last == SetMax(set)
           start == regs[SetMin(set)].a
           fits == /\ regs[k].a <= end + MaxHole
                   /\ End(regs[k]) - start <= MaxRead
                   /\ IF av[last] = "?" THEN Bits /\ regs[k].a = end /\ (av[k] = "?" => Cardinality(set) < BitRun)
                      ELSE av[k] # "?"
       IN IF fits THEN Grow(set \cup {k}, Max(end, End(regs[k])), k + 1) ELSE [set |-> set, end |-> end]
Alive == {k \in 1 .. N : av[k] # "n"}
Start == IF \E k \in Alive : k >= next THEN SetMin({k \in Alive : k >= next}) ELSE SetMin(Alive)
Poll == /\ Alive # {}
        /\ LET g == Grow({Start}, End(regs[Start]), Start + 1)
               a == regs[Start].a
               ok == \A x \in a .. g.end - 1 : x \in has
               hole == HasHole({regs[k] : k \in g.set}, a, g.end)
           IN /\ req' = [a |-> a, n |-> g.end - a, set |-> g.set, ok |-> ok]
              /\ av' = [k \in 1 .. N |-> IF k \notin g.set THEN av[k] ELSE IF ok THEN "y" ELSE IF hole THEN av[k] ELSE "n"]
              /\ holes' = IF ~ok /\ hole THEN FALSE ELSE holes
              /\ next' = IF SetMax(g.set) = N THEN 1 ELSE SetMax(g.set) + 1
        /\ UNCHANGED <<regs, has>>
Next == Poll
Spec == Init /\ [][Next]_vars /\ WF_vars(Poll)

There(k) == \A x \in regs[k].a .. End(regs[k]) - 1 : x \in has
\* the request covers its registers, no more than allowed
Fits == req.set # {} =>
  LET S == {regs[k] : k \in req.set} IN
  /\ req.a = SetMin({r.a : r \in S}) /\ req.a + req.n = SetMax({End(r) : r \in S})
  /\ Cardinality(S) > 1 => req.n <= MaxRead
  /\ HoleOk(S, req.a, req.a + req.n, Hole)
\* no register of the device is given up because of another one (bits tried in a row: they share their fate)
NoInnocent == \A k \in 1 .. N : There(k) => \/ av[k] # "n"
                                            \/ Bits /\ \E j \in 1 .. N : ~There(j) /\ av[j] = "n"
\* what the device does not have is not asked for again
NoneAskedAgain == [][\A k \in 1 .. N : av[k] = "n" => k \notin req'.set]_vars
\* every register the device has is read again and again; the others are given up
Served == \A k \in 1 .. N : ([]<>(k \in req.set /\ req.ok)) \/ <>[](av[k] = "n")
GivenUp == \A k \in 1 .. N : ~There(k) ~> av[k] = "n"
=============================================================================

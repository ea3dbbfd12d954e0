---------------------------- MODULE DWSystemMC ----------------------------
(* DWSystem closed: clients with every short command line, nodes that may  *)
(* do whatever is possible next.  Shows that what happens in the end is     *)
(* what the command lines say, whatever the order, and that it ends.        *)
EXTENDS DWSystem

CONSTANTS Longest,    \* options of a command line
          Clients, Each,   \* names of the clients, requests of each
          Alphabet

Nodes == {"a", "b"}

T(t) == [t |-> t, pr |-> "tcp"]
Option(x) ==
  CASE x = "C"  -> [o |-> "C", v |-> <<1>>]
    [] x = "S"  -> [o |-> "S", v |-> <<2>>, sync |-> 0]
    [] x = "L"  -> [o |-> "L", v |-> <<3>>]
    [] x = "Fa" -> [o |-> "F", ts |-> <<T("a")>>, to |-> 0, rt |-> 0]
    [] x = "Fb" -> [o |-> "F", ts |-> <<T("b")>>, to |-> 0, rt |-> 0]
    [] x = "M"  -> [o |-> "F", ts |-> <<T("a"), T("b")>>, to |-> 0, rt |-> 0]
    [] x = "Mb" -> [o |-> "F", ts |-> <<T("b"), T("b")>>, to |-> 0, rt |-> 0]
    [] x = "R"  -> [o |-> "R", v |-> <<20>>, nk |-> 0]
    [] x = "R2" -> [o |-> "R", v |-> <<>>, nk |-> 2]
    [] x = "s"  -> [o |-> "s", k |-> 1, sure |-> FALSE]

Lines == UNION {[1..n -> Alphabet] : n \in 0..Longest}
Chains(w) == {Request(x, 1) : x \in {y \in Outcomes(Template([i \in 1..Len(w) |-> Option(w[i])]), 1) : Readable(y)}}

VARIABLES line,    \* the command line of every client
          said     \* what the requests sent so far mean: node -> work
mvars == <<vars, line, said>>

\* what a chain that starts at node p means for all nodes
RECURSIVE Meaning(_, _, _)
Plus(f, g) == [n \in Nodes |-> Sum(f[n], g[n])]
Zero == [n \in Nodes |-> None]
RECURSIVE Over(_, _, _)
Over(ch, js, x) == IF js = {} THEN Zero ELSE LET j == CHOOSE j \in js : TRUE IN Plus(Meaning(ch[j].t, x, 1), Over(ch, js \ {j}, x))
Meaning(p, ch, i) ==
  LET c == ch[i]
  IN CASE c.op = "R" -> Zero
       [] IsFwd(c)   -> Plus(Over(ch, Targets(ch, i), SubChain(ch, i)), Meaning(p, ch, Skip(ch, i, 1)))
       [] OTHER      -> LET q == Alone(<<c, [op |-> "R"]>>, 1, None) IN Plus([Zero EXCEPT ![p] = q.due], Meaning(p, ch, i + 1))

Name(x, y) == x \o ">" \o y
Conns == {<<x, y>> : x \in Clients \cup Nodes, y \in Nodes}

Init ==
  /\ line \in [Clients -> {w \in Lines : Chains(w) # {}}]
  /\ said = Zero
  /\ acts = Nothing /\ fms = Nothing /\ late = {} /\ work = Zero /\ seen = Zero /\ nxt = 1
  /\ net = [k \in {Name(c[1], c[2]) : c \in Conns} |->
              LET c == CHOOSE c \in Conns : k = Name(c[1], c[2]) IN [fr |-> c[1], to |-> c[2], there |-> <<>>, back |-> <<>>]]
  /\ asked = [c \in Clients |-> {}] /\ done = [c \in Clients |-> <<>>] /\ count = [c \in Clients |-> 0]

\* an id no message of the node has
Fresh(p) == CHOOSE n \in 0..20 : (\A i \in DOMAIN acts : acts[i].p = p => acts[i].fid # n) /\ \A x \in late : x.p = p => x.fid # n
Fid(i) == IF acts[i].fid >= 0 THEN acts[i].fid ELSE Fresh(acts[i].p)

Next ==
  \/ \E c \in Clients : /\ count[c] < Each
                        /\ \E ch \in Chains(line[c]) : Ask(c, Name(c, "a"), count[c], ch) /\ said' = Plus(said, Meaning("a", ch, 1))
                        /\ UNCHANGED line
  \/ /\ UNCHANGED <<line, said>>
     /\ \/ \E k \in DOMAIN net : Len(net[k].there) > 0 /\ Take(net[k].to, k, Head(net[k].there).id, Head(net[k].there).ch)
        \* a node stores and loads for one that needs it
        \/ \E i \in DOMAIN acts :
             LET a == acts[i]
                 w == Sum(work[a.p], a.due)
             IN \/ w.st > seen[a.p].st /\ Disk(a.p, "S", w.st - seen[a.p].st)
                \/ w.st <= seen[a.p].st /\ w.ld > seen[a.p].ld /\ Disk(a.p, "L", w.ld - seen[a.p].ld)
        \/ \E i \in DOMAIN acts : \E j \in acts[i].pend :
             Pass(i, j, Name(acts[i].p, acts[i].ch[j].t), Fid(i), SubChain(acts[i].ch, acts[i].pc), acts[i].ch[j].ps)
        \/ \E x \in late : PassLate(x, Name(x.p, x.t), x.fid, x.ch, x.n)
        \/ \E k \in DOMAIN net : Len(net[k].back) > 0 /\ net[k].fr \in Nodes /\ Back(net[k].fr, k, Head(net[k].back).id, Head(net[k].back).st)
        \/ \E i \in DOMAIN acts : Op(acts[i]) = "R" /\ Answer(i, acts[i].k, acts[i].id, acts[i].ch[acts[i].pc].n, 0)
        \/ \E k \in DOMAIN net : Len(net[k].back) > 0 /\ net[k].fr \in Clients /\ Got(net[k].fr, k, Head(net[k].back).id, Head(net[k].back).st)
        \/ \E c \in Clients : Len(done[c]) > 0 /\ Line(c, Head(done[c]))

Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

----------------------------------------------------------------------------
Through == \A c \in Clients : count[c] = Each /\ asked[c] = {} /\ done[c] = <<>>
\* no more than what was said is ever done, and in the end all of it
Less(v, w) == v.us <= w.us /\ v.n <= w.n /\ v.st <= w.st /\ v.ld <= w.ld
NoMore == \A p \in Nodes : Less(work[p], said[p]) /\ seen[p].st <= said[p].st /\ seen[p].ld <= said[p].ld
AllOfIt == (DOMAIN acts = {} /\ Through /\ AtRest) => work = said
\* nothing gets stuck
Moving == ~(Through /\ AtRest) => ENABLED Next
Ends == <>(Through /\ AtRest)
\* a request is in exactly one place
Place(c, k, id) == Cardinality({i \in 1..Len(net[k].there) : net[k].there[i].id = id}) + Cardinality({i \in DOMAIN acts : acts[i].k = k /\ acts[i].id = id})
                   + Cardinality({i \in 1..Len(net[k].back) : net[k].back[i].id = id})
Somewhere == \A c \in Clients : \A x \in asked[c] : Place(c, x[1], x[2]) = 1
===========================================================================

---------------------------- MODULE AtomicPredict ----------------------------
(***************************************************************************)
(* Predictions and queries from several threads.  A prediction empties the  *)
(* index, moves the targets one by one (in any order), and puts back those  *)
(* that remain, all under the lock; a query goes over the list, or over the *)
(* index, target by target, under the lock.  Whatever the interleaving, what *)
(* a query returns is the state after a single number of predictions, one   *)
(* that was current at some time between its call and its return.           *)
(***************************************************************************)
EXTENDS Generations, TLC

CONSTANTS Writers, Readers, Steps, Pre, Dx, Lim, Region

VARIABLES lock, list, index, pc, left, todo, got, begun, ended, window
vars == <<lock, list, index, pc, left, todo, got, begun, ended, window>>

State0 == Gen(Pre, Dx, Lim, 0)
Ids == {Pre[i].id : i \in DOMAIN Pre}
Init == /\ lock = "free" /\ left = [w \in Writers |-> Steps]
        /\ list = [t \in Ids |-> State0[CHOOSE i \in DOMAIN State0 : State0[i].id = t]]
        /\ index = Ids
        /\ pc = [p \in Writers \cup Readers |-> "idle"]
        /\ todo = [p \in Writers \cup Readers |-> {}]
        /\ got = [r \in Readers |-> {}]
        /\ begun = 0 /\ ended = 0
        /\ window = [r \in Readers |-> <<0, 0>>]

To(p, at, to) == pc[p] = at /\ pc' = [pc EXCEPT ![p] = to]

-----------------------------------------------------------------------------
Call(w) == /\ left[w] > 0 /\ To(w, "idle", "called") /\ begun' = begun + 1 /\ left' = [left EXCEPT ![w] = @ - 1]
           /\ UNCHANGED <<lock, list, index, todo, got, ended, window>>
Enter(w) == /\ To(w, "called", "moving") /\ lock = "free" /\ lock' = w
            /\ index' = {} /\ todo' = [todo EXCEPT ![w] = DOMAIN list]
            /\ UNCHANGED <<list, left, got, begun, ended, window>>
MoveOne(w) == \E t \in todo[w] :
              /\ pc[w] = "moving"
              /\ list' = [list EXCEPT ![t] = [@ EXCEPT !.x = @ + Dx, !.r = @ \div 2]]
              /\ todo' = [todo EXCEPT ![w] = @ \ {t}]
              /\ UNCHANGED <<lock, index, pc, left, got, begun, ended, window>>
Moved(w) == /\ todo[w] = {} /\ To(w, "moving", "back") /\ todo' = [todo EXCEPT ![w] = DOMAIN list]
            /\ UNCHANGED <<lock, list, index, left, got, begun, ended, window>>
BackOne(w) == \E t \in todo[w] :
              /\ pc[w] = "back"
              /\ list' = (IF list[t].r >= Lim THEN list ELSE [u \in DOMAIN list \ {t} |-> list[u]])
              /\ index' = (IF list[t].r >= Lim THEN index \cup {t} ELSE index)
              /\ todo' = [todo EXCEPT ![w] = @ \ {t}]
              /\ UNCHANGED <<lock, pc, left, got, begun, ended, window>>
Leave(w) == /\ todo[w] = {} /\ To(w, "back", "left") /\ lock' = "free"
            /\ UNCHANGED <<list, index, left, todo, got, begun, ended, window>>
Return(w) == /\ To(w, "left", "idle") /\ ended' = ended + 1
             /\ UNCHANGED <<lock, list, index, left, todo, got, begun, window>>

Ask(r) == /\ To(r, "idle", "asked") /\ window' = [window EXCEPT ![r] = <<ended, 0>>]
          /\ UNCHANGED <<lock, list, index, left, todo, got, begun, ended>>
InRegion(t) == Len(Meeting(<<t>>, Region)) = 1
Look(r) == /\ To(r, "asked", "looking") /\ lock = "free" /\ lock' = r
           /\ todo' = [todo EXCEPT ![r] = {t \in index : InRegion(list[t])}]
           /\ got' = [got EXCEPT ![r] = {}]
           /\ UNCHANGED <<list, index, left, begun, ended, window>>
See(r) == \E t \in todo[r] :
          /\ pc[r] = "looking"
          /\ got' = [got EXCEPT ![r] = @ \cup {list[t]}] /\ todo' = [todo EXCEPT ![r] = @ \ {t}]
          /\ UNCHANGED <<lock, list, index, pc, left, begun, ended, window>>
Seen(r) == /\ todo[r] = {} /\ To(r, "looking", "seen") /\ lock' = "free"
           /\ UNCHANGED <<list, index, left, todo, got, begun, ended, window>>
Answer(r) == /\ To(r, "seen", "answered") /\ window' = [window EXCEPT ![r][2] = begun]
             /\ UNCHANGED <<lock, list, index, left, todo, got, begun, ended>>

Next == \/ \E w \in Writers : Call(w) \/ Enter(w) \/ MoveOne(w) \/ Moved(w) \/ BackOne(w) \/ Leave(w) \/ Return(w)
        \/ \E r \in Readers : Ask(r) \/ Look(r) \/ See(r) \/ Seen(r) \/ Answer(r)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OneGeneration == \A r \in Readers : pc[r] = "answered" =>
    \E g \in window[r][1]..window[r][2] :
       got[r] = LET s == Meeting(Gen(Pre, Dx, Lim, g), Region) IN {s[i] : i \in DOMAIN s}
Rest == (\A p \in Writers : pc[p] = "idle" /\ left[p] = 0) =>
          LET s == Gen(Pre, Dx, Lim, Steps * Cardinality(Writers)) IN
          /\ {list[t] : t \in DOMAIN list} = {s[i] : i \in DOMAIN s}
          /\ index = DOMAIN list

\* instance
P3 == << [id |-> 0, r |-> 128, x |-> 0, y |-> 0, h |-> 1], [id |-> 1, r |-> 3, x |-> 4, y |-> 0, h |-> 1], [id |-> 2, r |-> 64, x |-> -9, y |-> 0, h |-> 2] >>
R3 == <<-6, -1, 3, 1>>
=============================================================================

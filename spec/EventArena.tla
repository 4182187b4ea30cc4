---------------------------- MODULE EventArena -----------------------------
(* The list of future events as the program stores it: a linked list threaded
   through an array of slots, each holding the slot of the next event, a time
   and a kind; slots not in use form a free list through the same links.
   Structured like the code: InsertAt is filem(), RemoveHead is remove().
   RemoveHead makes the removed slot the head of the free list without linking
   it to the rest of the free list: its link still leads to the next event, so
   that after the following insertion the free pointer designates a slot in
   use, until the next removal sets it again.  That is right only because every
   removal is followed by exactly one insertion before the next removal, which
   is how the program uses the list (each event schedules its own successor).
   The variable phase records this discipline: "fill" at the start, then "run"
   (a removal is next) and "owed" (an insertion is next).
   TLC checks, for small arenas and times, that the arena refines EventList:
   nothing is lost, duplicated or reordered, and an insertion never overwrites
   a slot in use. *)
EXTENDS Integers, Sequences, FiniteSets, EventList

CONSTANTS Slots,      \* number of slots
          MaxTime,    \* times are 0..MaxTime
          Kinds       \* kinds of events

VARIABLES link,       \* slot -> next slot, or Nil
          time, kind, \* slot -> contents
          first,      \* first event, or Nil
          free,       \* first free slot (see above), or Nil
          phase,      \* "fill", "run", "owed"
          abst,       \* the abstract list (bag), updated by EventList operators
          last        \* the event taken by the last removal, or <<>>
avars == <<link, time, kind, first, free, phase, abst, last>>

Nil == -1
Slot == 0..(Slots - 1)

(* slots reached from s by following links, as a sequence of at most n *)
RECURSIVE Chain(_, _, _)
Chain(lk, s, n) == IF s = Nil \/ n = 0 THEN <<>>
                   ELSE <<s>> \o Chain(lk, lk[s], n - 1)
UsedChain == Chain(link, first, Slots + 1)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
ContentsOf(ch, tm, kd) == [i \in 1..Len(ch) |-> <<tm[ch[i]], kd[ch[i]]>>]
Contents == ContentsOf(UsedChain, time, kind)

AInit ==
  /\ link = [s \in Slot |-> IF s = Slots - 1 THEN Nil ELSE s + 1]
  /\ time = [s \in Slot |-> 0] /\ kind = [s \in Slot |-> 0]
  /\ first = Nil /\ free = 0 /\ phase = "fill"
  /\ abst = EmptyList /\ last = <<>>

(* the last of the leading events with a time less than t; Nil if none *)
RECURSIVE Pred(_, _, _)
Pred(p, s, t) == IF s = Nil THEN p
                 ELSE IF t > time[s] THEN Pred(s, link[s], t) ELSE p

InsertAt(t, k) ==
  /\ phase \in {"fill", "owed"} /\ free # Nil
  /\ LET new == free
         p   == Pred(Nil, first, t)
         nxt == IF p = Nil THEN first ELSE link[p]
     IN  /\ free' = link[new]
         /\ link' = IF p = Nil THEN [link EXCEPT ![new] = nxt]
                    ELSE [link EXCEPT ![new] = nxt, ![p] = new]
         /\ first' = IF p = Nil THEN new ELSE first
         /\ time' = [time EXCEPT ![new] = t]
         /\ kind' = [kind EXCEPT ![new] = k]
  /\ phase' = IF phase = "owed" THEN "run" ELSE "fill"
  /\ abst' = Schedule(abst, Ev(t, k))
  /\ UNCHANGED last

RemoveHead ==
  /\ phase \in {"fill", "run"} /\ first # Nil
  /\ last' = Ev(time[first], kind[first])
  /\ abst' = Taken(abst, last')
  /\ free' = first
  /\ first' = link[first]
  /\ time' = [time EXCEPT ![first] = 0]
  /\ kind' = [kind EXCEPT ![first] = 0]
  /\ phase' = "owed"
  /\ UNCHANGED link

ANext == RemoveHead \/ \E t \in 0..MaxTime, k \in Kinds : InsertAt(t, k)
ASpec == AInit /\ [][ANext]_avars

(* the arena holds exactly the abstract list, in order of time *)
NoCycle == Len(UsedChain) <= Slots /\ Cardinality(RangeOf(UsedChain)) = Len(UsedChain)
HoldsAbstract == BagOfSeq(Contents) = abst
InOrder == Sorted(Contents)
(* the slot that the next insertion will use is not in use *)
FreeIsFree == phase \in {"fill", "owed"} => free \notin RangeOf(UsedChain)
(* what is taken was pending, and nothing earlier was *)
TakesNext == [][RemoveHead => IsNext(abst, last')]_avars
=============================================================================

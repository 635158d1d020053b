------------------------------- MODULE Caches -------------------------------
(***************************************************************************)
(* How the package remembers, step by step, for clients that run at the    *)
(* same time: the nutation terms of the last instant (two entries written  *)
(* one after the other, each read on its own), the compiled formats (at    *)
(* most MAX + 1 of them, emptied under a lock), the hash an object         *)
(* remembers, and the local place.  Every finished call must have the      *)
(* answer it has alone, which is what History demands of the package.      *)
(* Broken = "none" is the package; other values are ways to get it wrong   *)
(* that the model must reject (checked by the harness, so that Right is    *)
(* known to be able to fail).                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Clients, Days, Formats, Objects, MAX, CALLS, Broken
VARIABLES pc, arg, res, lon, obl, formats, lock, hash, left
cvars == <<pc, arg, res, lon, obl, formats, lock, hash, left>>

None == <<>>
\* what is computed: the terms of a day in degrees or radians, the pattern of a format, the hash of an object
Terms(d, deg) == <<"lon", d, deg>>
Obliq(d, deg) == <<"obl", d, deg>>
Pattern(f) == <<"pattern", f>>
HashOf(o) == <<"hash", o>>
Kinds == {<<k, d, g>> : k \in {"lon", "obl"}, d \in Days, g \in {0, 1}}
         \cup {<<"fmt", f, 0>> : f \in Formats} \cup {<<"hash", o, 0>> : o \in Objects}
Pure(k) == CASE k[1] = "lon" -> Terms(k[2], k[3])
             [] k[1] = "obl" -> Obliq(k[2], k[3])
             [] k[1] = "fmt" -> Pattern(k[2])
             [] OTHER -> HashOf(k[2])

Init == /\ pc = [c \in Clients |-> "idle"] /\ arg = [c \in Clients |-> None] /\ res = [c \in Clients |-> None]
        /\ lon = None /\ obl = None        \* each <<day, degrees, value>>
        /\ formats = {} /\ lock = 0 /\ hash = [o \in Objects |-> None]
        /\ left = [c \in Clients |-> CALLS]

Go(c, from, to) == pc[c] = from /\ pc' = [pc EXCEPT ![c] = to]
Keep(v) == UNCHANGED v

Call(c) == \E k \in Kinds :
  /\ pc[c] = "idle" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ arg' = [arg EXCEPT ![c] = k] /\ res' = [res EXCEPT ![c] = None]
  /\ pc' = [pc EXCEPT ![c] = CASE k[1] \in {"lon", "obl"} -> "look" [] k[1] = "fmt" -> "lock" [] OTHER -> "peek"]
  /\ UNCHANGED <<lon, obl, formats, lock, hash>>

\* nutation: the entry is read in one piece
Look(c) == LET k == arg[c]  e == IF k[1] = "lon" THEN lon ELSE obl
               hit == e # None /\ e[1] = k[2] /\ (Broken = "no-degrees" \/ e[2] = k[3]) IN
  /\ pc[c] = "look"
  /\ IF Broken = "two-reads"           \* compares first, reads the value later
     THEN pc' = [pc EXCEPT ![c] = IF hit THEN "reread" ELSE "write1"] /\ UNCHANGED res
     ELSE /\ pc' = [pc EXCEPT ![c] = IF hit THEN "done" ELSE "write1"]
          /\ res' = [res EXCEPT ![c] = IF hit THEN e[3] ELSE Pure(k)]
  /\ UNCHANGED <<arg, lon, obl, formats, lock, hash, left>>
Reread(c) == /\ Go(c, "reread", "done")
             /\ res' = [res EXCEPT ![c] = IF arg[c][1] = "lon" THEN lon[3] ELSE obl[3]]
             /\ UNCHANGED <<arg, lon, obl, formats, lock, hash, left>>
Write1(c) == /\ Go(c, "write1", "write2")
             /\ lon' = <<arg[c][2], arg[c][3], Terms(arg[c][2], arg[c][3])>>
             /\ UNCHANGED <<arg, res, obl, formats, lock, hash, left>>
Write2(c) == /\ Go(c, "write2", "done")
             /\ obl' = <<arg[c][2], arg[c][3], Obliq(arg[c][2], arg[c][3])>>
             /\ res' = [res EXCEPT ![c] = Pure(arg[c])]
             /\ UNCHANGED <<arg, lon, formats, lock, hash, left>>

\* compiled formats
Take(c) == /\ Go(c, "lock", "clear") /\ (lock = 0 \/ Broken = "no-lock")
           /\ lock' = (IF Broken = "no-lock" THEN lock ELSE c)
           /\ UNCHANGED <<arg, res, lon, obl, formats, hash, left>>
Clear(c) == /\ Go(c, "clear", "get")
            /\ formats' = (IF Cardinality(formats) > MAX THEN {} ELSE formats)
            /\ UNCHANGED <<arg, res, lon, obl, lock, hash, left>>
Has(f) == \E e \in formats : e[1] = f
Get(c) == LET f == arg[c][2] IN
          /\ pc[c] = "get" /\ pc' = [pc EXCEPT ![c] = IF Has(f) THEN "use" ELSE "compile"]
          /\ UNCHANGED <<arg, res, lon, obl, formats, lock, hash, left>>
Compile(c) == /\ Go(c, "compile", "use")
              /\ formats' = formats \cup {<<arg[c][2], Pattern(arg[c][2])>>}
              /\ UNCHANGED <<arg, res, lon, obl, lock, hash, left>>
\* with the lock, the entry just seen is still there
Use(c) == /\ Go(c, "use", "done") /\ lock' = (IF lock = c THEN 0 ELSE lock)
          /\ res' = [res EXCEPT ![c] = IF Has(arg[c][2]) THEN Pattern(arg[c][2]) ELSE <<"lost">>]
          /\ UNCHANGED <<arg, lon, obl, formats, hash, left>>

\* the hash an object remembers
Peek(c) == LET o == arg[c][2] IN
           /\ pc[c] = "peek" /\ pc' = [pc EXCEPT ![c] = IF hash[o] = None THEN "keep" ELSE "tell"]
           /\ UNCHANGED <<arg, res, lon, obl, formats, lock, hash, left>>
Remember(c) == /\ Go(c, "keep", "tell") /\ hash' = [hash EXCEPT ![arg[c][2]] = HashOf(arg[c][2])]
               /\ UNCHANGED <<arg, res, lon, obl, formats, lock, left>>
Tell(c) == /\ Go(c, "tell", "done") /\ res' = [res EXCEPT ![c] = hash[arg[c][2]]]
           /\ UNCHANGED <<arg, lon, obl, formats, lock, hash, left>>

Back(c) == /\ Go(c, "done", "idle") /\ arg' = [arg EXCEPT ![c] = None] /\ UNCHANGED <<res, lon, obl, formats, lock, hash, left>>
Next == \E c \in Clients : Call(c) \/ Look(c) \/ Reread(c) \/ Write1(c) \/ Write2(c) \/ Take(c) \/ Clear(c) \/ Get(c)
                           \/ Compile(c) \/ Use(c) \/ Peek(c) \/ Remember(c) \/ Tell(c) \/ Back(c)
Fair == \A c \in Clients : WF_cvars(Look(c) \/ Reread(c) \/ Write1(c) \/ Write2(c) \/ Take(c) \/ Clear(c) \/ Get(c)
                           \/ Compile(c) \/ Use(c) \/ Peek(c) \/ Remember(c) \/ Tell(c) \/ Back(c))
Spec == Init /\ [][Next]_cvars /\ Fair

\* every finished call has the answer it has alone
Right == \A c \in Clients : pc[c] = "done" => res[c] = Pure(arg[c])
\* the entries are what they say, the formats stay few, and at most one client is inside the lock
Sound == /\ lon = None \/ lon[3] = Terms(lon[1], lon[2])
         /\ obl = None \/ obl[3] = Obliq(obl[1], obl[2])
         /\ \A e \in formats : e[2] = Pattern(e[1])
         /\ \A o \in Objects : hash[o] \in {None, HashOf(o)}
Few == Cardinality(formats) <= MAX + 1
Alone == Cardinality({c \in Clients : pc[c] \in {"clear", "get", "compile", "use"}}) <= 1
\* every call ends
Ends == \A c \in Clients : pc[c] # "idle" ~> pc[c] = "idle"
=============================================================================

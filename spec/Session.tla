------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The life of compilers and of the memory they use, at the level of the   *)
(* API: every function call may ask for memory and any request may fail.   *)
(*                                                                         *)
(* A compiler keeps its first error forever.  A call on a compiler without *)
(* an error fails exactly when one of its requests failed; a call on a     *)
(* compiler with an error requests nothing, changes nothing and answers    *)
(* with that error.  After a successful generation the compiler is in the  *)
(* state COMPILED, which behaves like an error for everything which emits. *)
(* Freeing a compiler returns exactly the memory it owns.                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Compilers,      \* names of compilers
          Blocks          \* blocks of memory which can be handed out

SUCCESS == 0
COMPILED == 1
ALLOC_FAILED == 2
EX_ALLOC_FAILED == 3

VARIABLES live,           \* compilers which exist
          err,            \* compiler -> error
          own,            \* compiler -> blocks it owns
          buffers,        \* blocks of serialized compilers, owned by the application
          codes,          \* blocks of generated code, owned by the application
          heap            \* all blocks which are handed out
vars == <<live, err, own, buffers, codes, heap>>

Init == /\ live = {} /\ buffers = {} /\ codes = {} /\ heap = {}
        /\ err = [c \in Compilers |-> SUCCESS]
        /\ own = [c \in Compilers |-> {}]

(* A call obtains the blocks A and gives back the blocks G; fm and fx      *)
(* requests of ordinary and of executable memory failed.                   *)
Memory(A, G) == /\ A \cap heap = {} /\ G \subseteq heap \cup A /\ heap' = (heap \cup A) \ G
Nothing(A, G, fm, fx) == A = {} /\ G = {} /\ fm = 0 /\ fx = 0

\* creating fails as a whole, and then keeps nothing
Create(c, A, G, fm, fx, ret) ==
  /\ c \notin live /\ Memory(A, G) /\ fx = 0
  /\ ret = (IF fm = 0 THEN 1 ELSE 0)
  /\ IF ret = 1
     THEN live' = live \cup {c} /\ own' = [own EXCEPT ![c] = A \ G] /\ err' = [err EXCEPT ![c] = SUCCESS] /\ A \ G # {} /\ G \subseteq A
     ELSE A = G /\ UNCHANGED <<live, own, err>>
  /\ UNCHANGED <<buffers, codes>>

\* any call which emits: the answer is the error of the compiler
Emit(c, A, G, fm, fx, ret) ==
  /\ c \in live /\ Memory(A, G)
  /\ IF err[c] # SUCCESS
     THEN Nothing(A, G, fm, fx) /\ UNCHANGED <<err, own>>
     ELSE /\ fx = 0 /\ G \subseteq own[c] \cup A
          /\ err' = [err EXCEPT ![c] = IF fm > 0 THEN ALLOC_FAILED ELSE SUCCESS]
          /\ own' = [own EXCEPT ![c] = (own[c] \cup A) \ G]
  /\ ret = err'[c]
  /\ UNCHANGED <<live, buffers, codes>>

\* an object allocated for the application inside the memory of the compiler
Alloc(c, A, G, fm, fx, ret) ==
  /\ Emit(c, A, G, fm, fx, err'[c]) /\ ret = (IF err'[c] = SUCCESS THEN 1 ELSE 0)

\* the application reports a failure of its own
UserError(c, A, G, fm, fx) ==
  /\ c \in live /\ Nothing(A, G, fm, fx)
  /\ err' = [err EXCEPT ![c] = IF @ = SUCCESS THEN ALLOC_FAILED ELSE @]
  /\ UNCHANGED <<live, own, buffers, codes, heap>>

\* X: executable blocks obtained; a failed generation keeps none of them
Generate(c, A, X, G, fm, fx, ret, external) ==
  /\ c \in live /\ Memory(A \cup X, G)
  /\ IF err[c] # SUCCESS
     THEN /\ Nothing(A \cup X, G, fm, fx) /\ ret = 0 /\ UNCHANGED <<err, own, codes>>
     ELSE /\ err' = [err EXCEPT ![c] = IF fm > 0 THEN ALLOC_FAILED ELSE IF fx > 0 THEN EX_ALLOC_FAILED ELSE COMPILED]
          /\ ret = (IF err'[c] = COMPILED THEN 1 ELSE 0)
          /\ IF external THEN X = {} /\ fx = 0 ELSE Cardinality(X) = (IF ret = 1 THEN 1 ELSE Cardinality(X))
          /\ IF ret = 1 THEN X \cap G = {} /\ codes' = codes \cup X ELSE X \subseteq G /\ UNCHANGED codes
          /\ G \subseteq own[c] \cup A \cup X
          /\ own' = [own EXCEPT ![c] = (own[c] \cup A) \ G]
  /\ UNCHANGED <<live, buffers>>

Free(c, A, G, fm, fx) ==
  /\ c \in live /\ A = {} /\ fm = 0 /\ fx = 0 /\ Memory(A, G)
  /\ G = own[c]
  /\ live' = live \ {c} /\ own' = [own EXCEPT ![c] = {}] /\ err' = [err EXCEPT ![c] = SUCCESS]
  /\ UNCHANGED <<buffers, codes>>

\* code lives until it is freed, whatever happens to its compiler
FreeCode(A, G, fm, fx) ==
  /\ A = {} /\ fm = 0 /\ fx = 0 /\ Memory(A, G) /\ Cardinality(G) = 1 /\ G \subseteq codes
  /\ codes' = codes \ G /\ UNCHANGED <<live, err, own, buffers>>

\* ret: the block of the result, 0 when there is none
Serialize(c, A, G, fm, fx, ret) ==
  /\ c \in live /\ Memory(A, G) /\ fx = 0
  /\ IF err[c] # SUCCESS
     THEN Nothing(A, G, fm, fx) /\ ret = 0 /\ UNCHANGED <<err, buffers>>
     ELSE IF fm > 0
     THEN A = G /\ ret = 0 /\ err' = [err EXCEPT ![c] = ALLOC_FAILED] /\ UNCHANGED buffers
     ELSE /\ G \subseteq A /\ A \ G = {ret} /\ buffers' = buffers \cup {ret} /\ UNCHANGED err
  /\ UNCHANGED <<live, own, codes>>
FreeBuffer(A, G, fm, fx) ==
  /\ A = {} /\ fm = 0 /\ fx = 0 /\ Memory(A, G) /\ Cardinality(G) = 1 /\ G \subseteq buffers
  /\ buffers' = buffers \ G /\ UNCHANGED <<live, err, own, codes>>

(* What follows from it.                                                   *)
Accounted == heap = UNION {own[c] : c \in live} \cup buffers \cup codes
Separate == /\ \A c, d \in live : c # d => own[c] \cap own[d] = {}
            /\ \A c \in live : own[c] \cap (buffers \cup codes) = {}
            /\ buffers \cap codes = {}
NoLeak == (live = {} /\ buffers = {} /\ codes = {}) => heap = {}
Sticky == [][\A c \in live : (c \in live' /\ err[c] # SUCCESS) => err'[c] = err[c] /\ own'[c] = own[c]]_vars

(* Exploration of the design: small instances, every failure.              *)
New(n) == {A \in SUBSET (Blocks \ heap) : Cardinality(A) <= n}
Next ==
   \/ \E c \in live, ret \in 0..3 : UserError(c, {}, {}, 0, 0) \/ Free(c, {}, own[c], 0, 0) \/ Emit(c, {}, {}, 0, 0, ret)
   \/ \E A \in New(2), fm \in 0..1, ret \in 0..3 :
        \/ \E c \in Compilers \ live, G \in SUBSET A : Create(c, A, G, fm, 0, ret)
        \/ \E c \in live :
             \/ \E G \in SUBSET (own[c] \cup A) : Cardinality(G) <= 1 /\ (Emit(c, A, G, fm, 0, ret) \/ Alloc(c, A, G, fm, 0, ret))
             \/ \E b \in Blocks \cup {0}, G \in SUBSET A : Serialize(c, A, G, fm, 0, b)
             \/ \E X \in New(1), fx \in 0..1, e \in BOOLEAN : \E G \in SUBSET (own[c] \cup A \cup X) :
                  X \cap A = {} /\ Cardinality(G) <= 2 /\ Generate(c, A, X, G, fm, fx, ret, e)
   \/ \E x \in heap : FreeCode({}, {x}, 0, 0) \/ FreeBuffer({}, {x}, 0, 0)
Spec == Init /\ [][Next]_vars
=============================================================================

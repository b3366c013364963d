----------------------------- MODULE LirTrace -----------------------------
(***************************************************************************)
(* Trace validation.  Each line of the trace file is one program together  *)
(* with what the real generated code was observed to do: register contents *)
(* stored at every observation point that was executed, the changed memory *)
(* cells at the end, the returned value.  The program is run on Lir and    *)
(* every observation has to be the one the specification determines.       *)
(***************************************************************************)
EXTENDS Lir, Json, IOUtils

\* the programs are read once and kept in a register (TLC would re-evaluate a definition)
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
ProgAt(i) == TLCGet(7)[i]
NProgs == Len(TLCGet(7))

RegInit(p, k) == Pad(p.init[k], p.w)
TInit == /\ pi \in 1..NProgs
         /\ pc = 1
         /\ R = TLCEval([k \in 1..Len(P.init) |-> RegInit(P, k)])
         /\ F = TLCEval([k \in 1..Len(P.finit) |-> Pad(P.finit[k], 8)])
         /\ V = TLCEval([k \in 1..Len(P.vinit) |-> P.vinit[k]])
         /\ mem = [c \in {} |-> 0]
         /\ fl = NoFlags
         /\ cs = <<>>
         /\ pt = [x \in {} |-> 0]
         /\ st = "run"

\* observed o agrees with expected e; an unchanged register is logged as <<-2>>
Agrees(e, o) ==
  IF IsAnyNaN(e) THEN Len(o) >= 4 /\ IsNaN(SubSeq(o, 1, IF Len(o) > 4 /\ e[5] = -3 THEN 8 ELSE 4))
  ELSE \A k \in 1..Len(e) : e[k] < 0 \/ (k <= Len(o) /\ o[k] = e[k])
ObsReg(init, o) == IF Len(o) = 1 THEN init ELSE o
RegsAgree(o) == \A k \in 1..Len(R) : k > Len(o) \/ o[k] = <<>> \/ Agrees(R[k], ObsReg(P.init[k], o[k]))
FRegsAgree(o) == \A k \in 1..Len(F) : k > Len(o) \/ o[k] = <<>> \/ Agrees(F[k], ObsReg(P.finit[k], o[k]))
VRegsAgree(o) == \A k \in 1..Len(V) : k > Len(o) \/ o[k] = <<>> \/ Agrees(V[k], ObsReg(P.vinit[k], o[k]))

Reject(what, exp, got) == PrintT(<<"REJECT", P.id, pc, what, exp, got>>)
Judge(ok, what, exp, got) ==
  IF ok THEN Adv ELSE Reject(what, exp, got) /\ st' = "rejected" /\ UNCHANGED <<pi, pc>>
Obs == /\ K("obs") /\ UNCHANGED <<R, F, V, mem, cs>> /\ FlagsKept
       /\ LET o == P.obs[I[2]] IN Judge(Len(o) > 0 /\ RegsAgree(o), "registers", R, o)
FObs == /\ K("fobs") /\ UNCHANGED <<R, F, V, mem, cs>> /\ FlagsKept
        /\ LET o == P.obs[I[2]] IN Judge(Len(o) > 0 /\ FRegsAgree(o), "fregisters", F, o)
VObs == /\ K("vobs") /\ UNCHANGED <<R, F, V, mem, cs>> /\ FlagsKept
        /\ LET o == P.obs[I[2]] IN Judge(Len(o) > 0 /\ VRegsAgree(o), "vregisters", V, o)

(* Calls of C functions which log their arguments and return a constant:   *)
(* tail, args, return kind, returned bytes, slot                           *)
Logged(args, o) == IF args = <<>> THEN Len(o) = 1 ELSE Len(o) = Len(args) /\ \A k \in 1..Len(args) : Agrees(ArgVal(args, k, R, F), o[k])
CCall == /\ K("ccall") /\ UNCHANGED mem
         /\ LET args == I[3]
                o == P.obs[I[6]]
                r0 == IF I[4] = "int" THEN Pad(I[5], W) ELSE Undef(W)
                f0 == IF I[4] = "float" THEN Pad(I[5], 8) ELSE Undef(8)
                N == Len(R)
            IN IF ~Logged(args, o)
               THEN /\ Reject("call arguments", [k \in 1..Len(args) |-> ArgVal(args, k, R, F)], o)
                    /\ st' = "rejected" /\ UNCHANGED <<pi, pc, R, F, V, cs, fl>>
               ELSE IF I[2] = 1 THEN Unwind(r0, f0, FR.ret)
               ELSE /\ Adv /\ FlagsLost /\ UNCHANGED <<V, cs>>
                    /\ R' = TLCEval([i \in 1..N |-> IF i = 1 THEN r0 ELSE IF i > N - FR.sv THEN R[i] ELSE Undef(W)])
                    /\ F' = TLCEval([i \in 1..Len(F) |-> IF i = 1 THEN f0 ELSE IF i > Len(F) - FR.fsv THEN F[i] ELSE Undef(8)])
(* A C function which calls the function whose address is in R0 with the   *)
(* given arguments, then (cres) logs what it returned                      *)
CInvoke == /\ K("cinv") /\ UNCHANGED <<V, mem>> /\ FlagsLost
           /\ LET args == I[2]
                  At(f, i) == {k \in 1..Len(args) : IsFArg(args[k]) = f /\ ArgNo(args, k) = i}
              IN /\ R' = TLCEval([i \in 1..Len(R) |-> IF At(FALSE, i) # {} THEN Pad(I[3][CHOOSE k \in At(FALSE, i) : TRUE], W) ELSE Undef(W)])
                 /\ F' = TLCEval([i \in 1..Len(F) |-> IF At(TRUE, i) # {} THEN Pad(I[3][CHOOSE k \in At(TRUE, i) : TRUE], 8) ELSE Undef(8)])
                 /\ cs' = <<NewFrame("c", FALSE)>> \o cs
                 /\ pc' = LabelAt(Def(R[1])) /\ UNCHANGED <<pi, st>>
CResult == /\ K("cres") /\ UNCHANGED <<V, mem, cs>> /\ FlagsLost
           /\ LET o == P.obs[I[3]]
                  e == CASE I[2] = "v" -> <<>> [] I[2] = "f" -> Trunc(F[1], 4) [] I[2] = "d" -> F[1]
                         [] I[2] = "4" -> Trunc(R[1], 4) [] OTHER -> R[1]
              IN IF Len(o) = 1 /\ (I[2] = "v" \/ Agrees(e, o[1]))
                 THEN /\ Adv
                      /\ R' = TLCEval([i \in 1..Len(R) |-> IF i > Len(R) - FR.sv THEN R[i] ELSE Undef(W)])
                      /\ F' = TLCEval([i \in 1..Len(F) |-> IF i > Len(F) - FR.fsv THEN F[i] ELSE Undef(8)])
                 ELSE /\ Reject("result", e, o) /\ st' = "rejected" /\ UNCHANGED <<pi, pc, R, F>>

(* Rewritable calls of the C functions k: x -> 3x + k + 1, and the C        *)
(* function which changes the code: list n of the program, n in a register *)
AfterC(r0) == /\ R' = TLCEval([i \in 1..Len(R) |-> IF i = 1 THEN r0 ELSE IF i > Len(R) - 6 THEN R[i] ELSE Undef(W)])
              /\ F' = TLCEval([i \in 1..Len(F) |-> Undef(8)])
RCall == /\ K("rcall") /\ Adv /\ UNCHANGED <<V, cs, mem>> /\ FlagsLost
         /\ LET a == Def(R[1])
            IN AfterC(Add(Add(a, Add(a, a)), OfNat(Patched("j", I[2], I[3]) + 1, W)))
Fold(l) == [x \in {<<e[1], e[2]>> : e \in {l[k] : k \in 1..Len(l)}} |->
             LET S == {k \in 1..Len(l) : l[k][1] = x[1] /\ l[k][2] = x[2]} IN l[CHOOSE k \in S : \A j \in S : j <= k][3]]
Patch == /\ K("patch") /\ Adv /\ UNCHANGED <<V, cs, mem>> /\ FlagsLost
         /\ AfterC(Undef(W))
         /\ pt' = TLCEval(Fold(P.patches[ToNat(SubSeq(Def(R[I[2]]), 1, 2))]) @@ pt)

Layout == /\ K("layout") /\ UNCHANGED <<R, F, V, mem, cs>> /\ FlagsKept
          /\ Judge(P.crash = "" /\ LayoutOk, "layout", <<P.lay, P.bufs>>, <<P.code, P.labs>>)
(* Generating into buffers of several sizes: <<size, success, error, buffer  *)
(* changed, bytes around it unchanged, reported code size>>                 *)
ErrExAlloc == 3
TryOk(t) == /\ t[5] = 1
            /\ IF t[2] = 1 THEN t[3] = 0 /\ t[6] <= t[1] ELSE t[3] = ErrExAlloc /\ t[4] = 0
TriesOk ==
  \/ "tries" \notin DOMAIN P
  \/ LET T == P.tries
         S == {T[k][6] : k \in {k \in 1..Len(T) : T[k][2] = 1}}
     IN /\ S # {}
        /\ \A k \in 1..Len(T) : TryOk(T[k])
        /\ \A j, k \in 1..Len(T) : T[j][2] = 1 /\ T[j][1] <= T[k][1] => T[k][2] = 1
\* rewritable jumps and constants are in the code
PlacesOk == "places" \notin DOMAIN P \/
  \A k \in 1..Len(P.places) : Ule(P.code[1], P.places[k]) /\ Ult(P.places[k], Add(P.code[1], P.code[2]))
\* the end of the program: memory; observations which must not have happened
Changed == {P.mem[k][1] : k \in 1..Len(P.mem)}
MemAgrees ==
  /\ \A k \in 1..Len(P.mem) : LET c == P.mem[k][1] IN Byte(c) < 0 \/ Byte(c) = P.mem[k][2]
  /\ \A c \in DOMAIN mem : mem[c] < 0 \/ c \in Changed \/ P.reg[c \div 16777216][3] < 0 \/ mem[c] = InitByte(c)
End == /\ K("end") /\ UNCHANGED <<pi, pc, R, F, V, mem, fl, cs>>
       /\ LET e == IF I[2][1] = "none" THEN <<>> ELSE IF I[2][1] = "f" THEN Trunc(F[I[2][2]], I[3]) ELSE Trunc(R[I[2][2]], I[3])
              ok == MemAgrees /\ P.crash = "" /\ Agrees(e, P.ret) /\ TriesOk /\ PlacesOk
          IN IF ok THEN st' = "done"
             ELSE Reject("end", <<e, [c \in DOMAIN mem |-> mem[c]]>>, <<P.crash, P.ret, P.mem, IF TriesOk THEN <<>> ELSE P.tries, PlacesOk>>) /\ st' = "rejected"
Stop == /\ st \in {"done", "rejected"} /\ UNCHANGED vars

\* the load and the store form of an atomic operation are both available or both not
Disagree == /\ st = "run" /\ pc <= Len(P.ins) /\ I[1] = "astore" /\ ~PairAgrees
            /\ Reject("support", I[9], P.skip) /\ st' = "rejected" /\ UNCHANGED <<pi, pc, R, F, V, mem, fl, cs>>
\* nothing was recorded for a program which crashed (label addresses neither)
Crashed == /\ Reject("crash", <<>>, P.crash) /\ st' = "rejected" /\ UNCHANGED <<pi, pc, R, F, V, mem, fl, cs>>
Step == IF st = "run" /\ P.crash # "" /\ P.ltarget # <<>> /\ P.laddr = <<>> THEN Crashed ELSE LirStep \/ Disagree \/ CCall \/ RCall \/ CInvoke \/ CResult \/ Obs \/ FObs \/ VObs \/ Layout \/ End
TNext == (UNCHANGED pt /\ Step) \/ Patch
TSpec == TInit /\ [][TNext]_vars

\* every program must reach a verdict; counted in a register (one worker)
Count == IF st = "done" THEN TLCSet(1, TLCGet(1) + 1)
         ELSE IF st = "rejected" THEN TLCSet(2, TLCGet(2) + 1) ELSE TRUE
CountInit == TLCSet(1, 0) /\ TLCSet(2, 0)
ASSUME CountInit
AllJudged == PrintT(<<"VERDICTS", TLCGet(1), TLCGet(2), NProgs>>) /\ TLCGet(1) + TLCGet(2) = NProgs
=============================================================================

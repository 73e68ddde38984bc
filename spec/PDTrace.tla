------------------------------ MODULE PDTrace ------------------------------
(* Trace validation: every recorded call of the diagram driver must be an action of PDSpec. *)
EXTENDS PDText, PDQuery, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<regs, l>>

Init == regs = NoRegs /\ l = 1

Untouched(ev) == ev.same = 1 /\ regs' = regs

Step(ev) ==
  CASE ev.op = "reset"    -> regs' = NoRegs
    [] ev.op = "build"    -> Build(ev.r, ev.in, ev.out[1])
    [] ev.op = "fam"      -> Load(ev.r, ev.out[1])
    [] ev.op = "load"     -> Load(ev.r, ev.out[1])
    [] ev.op = "regen"    -> Regen(ev.r, ev.out[1])
    [] ev.op = "copy"     -> ev.same = 1 /\ Copy(ev.r, ev.s[1], ev.out[1])
    [] ev.op = "reorient" -> Reorient(ev.r, ev.a[1], ev.a[2], ev.out[1])
    [] ev.op = "renumber" -> Renumber(ev.r, ev.a[1], ev.a[2], ev.out[1])
    [] ev.op = "r1del"    -> ev.same = 1 /\ R1Del(ev.r, ev.s[1], ev.a[1], ev.out[1])
    [] ev.op = "r1add"    -> ev.same = 1 /\ R1AddAt(ev.r, ev.s[1], ev.a[1], ev.a[2], ev.out[1])
    [] ev.op = "r2add"    -> ev.same = 1 /\ R2AddAt(ev.r, ev.s[1], ev.a[1], ev.a[2], ev.a[3], ev.out[1])
    [] ev.op = "r3"       -> ev.same = 1 /\ R3At(ev.r, ev.s[1], ev.a[1], ev.out[1])
    [] ev.op = "r2del"    -> ev.same = 1 /\ R2Del(ev.r, ev.s[1], ev.a[1], ev.a[2], ev.out)
    [] ev.op = "simplify" -> ev.same = 1 /\ Simplify(ev.r, ev.s[1], ev.out[1])
    [] ev.op = "split"    -> ev.same = 1 /\ SplitInto(ev.s, ev.out) /\ regs' = regs
    [] ev.op = "consum"   -> ev.same = 1 /\ ConSum(ev.r, ev.s[1], ev.a[1], ev.s[2], ev.a[2], ev.out[1])
    [] ev.op = "txt"      -> Txt(ev.s, ev.text, ev.out)
    [] ev.op = "rvar"     -> RVar(ev.s[1], ev.a, ev.out[1])
    [] ev.op = "rtext"    -> ReadAny(ev.e, ev.err, ev.out[1])
    [] ev.op = "mut"      -> ReadAny(1, ev.err, ev.out[1]) /\ (ev.err # 0 <=> ev.null2 = 1)
    [] ev.op = "kt"       -> ev.same = 1 /\ KT(ev.s[1], ev.nums, ev.mask, ev.out[1])
    [] ev.op = "ktread"   -> ReadAny(0, 0, ev.out[1])
    [] ev.op = "pack"     -> ev.same = 1 /\ Pack(ev.s[1], ev.a[1], ev.out[1])
    [] ev.op = "iso"      -> ev.same = 1 /\ Iso(ev.s[1], ev.s[2], ev.v)
    [] ev.op = "isos"     -> ev.same = 1 /\ Isos(ev.s[1], ev.s[2], ev.k, ev.isos)
    [] ev.op = "isostr"   -> ev.same = 1 /\ (ev.v[1] = 1) = Isomorphic(A(ev.s[1]), A(ev.s[2])) /\ regs' = regs
    [] ev.op = "autos"    -> ev.same = 1 /\ Autos(ev.s[1], ev) /\ regs' = regs
    [] ev.op = "q"        -> Query(ev.s[1], ev)
    [] ev.op = "okq"      -> Untouched(ev) /\ ev.v = 1
    [] OTHER              -> FALSE          \* crash, hang, or a call the specification does not know

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Step(Trace[l])
Spec == Init /\ [][Next]_tvars

TraceAccepted == /\ PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

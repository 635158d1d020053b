------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Decides recorded calls of the implementation.  The trace (file named by *)
(* the environment variable TRACE) holds one event per call:               *)
(*   op, a (integers), s (texts): the call;  ok: 1 returned, 0 raised;     *)
(*   ex: class of the error;  r (integers), t (texts): what was observed.  *)
(* Verdict(e) is the set of clauses event e violates.  Dev(e) names a      *)
(* recognised deviation whose exact result is specified here; an event     *)
(* with a deviation is not a violation as long as it is a listed finding.  *)
(* The trace position moves one event per step; several starting points    *)
(* only serve to use several workers.                                      *)
(***************************************************************************)
EXTENDS ConfDates, ConfTimes, ConfNum, ConfSun, ConfText, ConfFormat, ConfParse, ConfSaving, ConfSky, ConfOptions, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
CHUNK == 2000


Verdict(e) ==
  CASE e.op = "fromord" -> VFromOrd(e)
    [] e.op = "toord" -> VToOrd(e)
    [] e.op = "year" -> VYear(e)
    [] e.op = "festivals" -> VFestivals(e)
    [] e.op = "s2l" -> VS2L(e, FALSE)
    [] e.op = "s2lt" -> VS2L(e, TRUE)
    [] e.op = "l2s" -> VL2S(e, FALSE)
    [] e.op = "l2st" -> VL2S(e, TRUE)
    [] e.op = "lacc" -> VLAcc(e)
    [] e.op = "week" -> VWeek(e)
    [] e.op = "iso" -> VIso(e)
    [] e.op = "fromiso" -> VFromIso(e)
    [] e.op = "cmpdate" -> VCmpDate(e)
    [] e.op = "cmpother" -> VCmpOther(e)
    [] e.op = "cmpmix" -> VCmpOther(e)
    [] e.op = "badioff" -> VBadiOff(e)
    [] e.op = "tzarg" -> VTzArg(e)
    [] e.op = "dateadd" -> VDateAdd(e)
    [] e.op = "datesub" -> VDateSub(e)
    [] e.op = "datebad" -> VDateBad(e)
    [] e.op = "dtadd" -> VDtAdd(e)
    [] e.op = "dtsub" -> VDtSub(e)
    [] e.op = "dtcmp" -> VDtCmp(e)
    [] e.op = "dtcmpother" -> VCmpOther(e)
    [] e.op = "dtbad" -> VDateBad(e)
    [] e.op = "dtround" -> VDtRound(e)
    [] e.op = "astz" -> VAstz(e)
    [] e.op = "tz" -> VTz(e)
    [] e.op = "tzeq" -> VTzEq(e)
    [] e.op = "tzmake" -> VTzMake(e)
    [] e.op = "repdate" -> VRepDate(e)
    [] e.op = "repdt" -> VRepDt(e)
    [] e.op = "reptime" -> VRepTime(e)
    [] e.op = "combine" -> VCombine(e)
    [] e.op = "tcmp" -> VTCmp(e)
    [] e.op = "tcmpother" -> VCmpOther(e)
    [] e.op = "tiso" -> VTIso(e)
    [] e.op = "tback" -> VTBack(e)
    [] e.op = "tbool" -> VTBool(e)
    [] e.op = "ttup" -> VTTup(e)
    [] e.op = "utup" -> VUTup(e)
    [] e.op = "dtup" -> VDTup(e)
    [] e.op = "tuprt" -> VTupRt(e)
    [] e.op = "tupnames" -> VTupNames(e)
    [] e.op = "tupbad" -> VTupBad(e)
    [] e.op = "pickdate" -> VPickDate(e)
    [] e.op = "pickdt" -> VPickDt(e)
    [] e.op = "picktime" -> VPickTime(e)
    [] e.op = "picktz" -> VPickTz(e)
    [] e.op = "pickiso" -> VPickIso(e)
    [] e.op = "picktup" -> VPickTup(e)
    [] e.op = "mkdate" -> VMkDate(e)
    [] e.op = "mkfields" -> VMkFields(e)
    [] e.op = "mktime" -> VMkTime(e)
    [] e.op = "mkdtime" -> VMkDtime(e)
    [] e.op = "mkbad" -> VMkBad(e)
    [] e.op = "reprdate" -> VReprDate(e)
    [] e.op = "reprdt" -> VReprDt(e)
    [] e.op = "reprtime" -> VReprTime(e)
    [] e.op = "reprtz" -> VReprTz(e)
    [] e.op = "reprpair" -> VReprPair(e)
    [] e.op = "zones" -> VZones(e)
    [] e.op = "decday" -> VDecDay(e)
    [] e.op = "dayhms" -> VDayHms(e)
    [] e.op = "dhms" -> VDhms(e)
    [] e.op = "sdhms" -> VSdhms(e)
    [] e.op = "smicro" -> VSmicro(e)
    [] e.op = "dms" -> VDms(e)
    [] e.op = "hmsdeg" -> VHmsDeg(e)
    [] e.op = "frac" -> VFrac(e)
    [] e.op = "kvym" -> VKvym(e)
    [] e.op = "gymd" -> VGymd(e)
    [] e.op = "parts" -> VParts(e)
    [] e.op = "galt" -> VGalt(e)
    [] e.op = "gjd" -> VGjd(e)
    [] e.op = "gback" -> VGback(e)
    [] e.op = "gbad" -> VGbad(e)
    [] e.op = "meeus" -> VMeeus(e)
    [] e.op = "daystart" -> VDayStart(e)
    [] e.op = "optsfrom" -> VOptsFrom(e)
    [] e.op = "optsto" -> VOptsTo(e)
    [] e.op = "dayat" -> VDayAt(e)
    [] e.op = "atinstant" -> VAtInstant(e)
    [] e.op = "ts" -> VTs(e)
    [] e.op = "fromts" -> VFromTs(e)
    [] e.op = "isod" -> VIsoD(e)
    [] e.op = "isodt" -> VIsoDt(e)
    [] e.op = "readd" -> VReadD(e)
    [] e.op = "readdt" -> VReadDt(e)
    [] e.op = "spelld" -> VSpellD(e)
    [] e.op = "spelldt" -> VSpellDt(e)
    [] e.op = "isoback" -> VIsoBack(e)
    [] e.op = "isobackd" -> VIsoBackD(e)
    [] e.op = "fmtd" -> VFormat(e, DateCtx(e.a))
    [] e.op = "fmtdt" -> VFormat(e, DtCtx(e.a))
    [] e.op = "fmtt" -> VFormat(e, TimeCtx(e.a))
    [] e.op = "ctimedt" -> VCtime(e)
    [] e.op = "strp" -> VStrp(e)
    [] e.op = "strpback" -> VStrpBack(e)
    [] e.op = "svshow" -> VSvShow(e)
    [] e.op = "svcmp" -> VSvCmp(e)
    [] e.op = "svsub" -> VSvSub(e)
    [] e.op = "svinto" -> VSvInto(e)
    [] e.op = "svdo" -> VSvDo(e)
    [] e.op = "svstamp" -> VSvStamp(e)
    [] e.op = "ats" -> VAts(e)
    [] e.op = "svtime" -> VSvTime(e)
    [] e.op = "svbad" -> VSvBad(e)
    [] e.op = "sky" -> VSky(e)
    [] e.op = "season" -> VSeason(e)
    [] OTHER -> {"unknown operation"}
\* recognised deviations
Dev(e) ==
  CASE e.op = "toord" /\ e.a[3] \in OffByOneYears /\ e.ok = 1
         /\ e.r = <<Ord(e.a[3], e.a[4], e.a[5]) + 1>> -> {"ordinal-off-by-one"}
    [] e.op = "year" /\ e.a[1] \in OffByOneYears /\ e.ok = 1
         /\ e.r = <<YS(e.a[1]) + 1, YS(e.a[1] + 1), YS(e.a[1]) + 342, YS(e.a[1] + 1) - 18, B(Leap(e.a[1]))>> -> {"ordinal-off-by-one"}
    [] e.op = "fromord" /\ ReformGap(e.a[1]) /\ e.ok = 0 /\ e.ex = "ValueError" -> {"reform-gap-ordinals"}
    [] e.op = "fromiso" -> DFromIso(e)
    [] e.op \in {"readd", "spelld"} -> DReadD(e)
    [] e.op \in {"readdt", "spelldt"} -> DReadDt(e)
    [] e.op = "atinstant" -> DAtInstant(e)
    [] e.op = "fromts" -> DFromTs(e)
    [] e.op = "fmtdt" -> DFormat(e, DtCtx(e.a))
    [] e.op = "fmtt" -> DFormat(e, TimeCtx(e.a))
    [] e.op = "strp" -> DStrp(e)
    [] e.op = "strpback" -> DStrpBack(e)
    [] OTHER -> {}

VARIABLE pos
Spec == pos \in {1 + CHUNK * k : k \in 0..((N - 1) \div CHUNK)}
        /\ [][(pos % CHUNK) # 0 /\ pos < N /\ pos' = pos + 1]_pos
Decide == LET e == Trace[pos] v == Verdict(e) IN
          IF v = {} THEN TRUE
          ELSE LET d == Dev(e) IN
               PrintT(<<"FAIL", pos, IF d = {} THEN v ELSE {}, d>>)
============================================================================

------------------------------ MODULE Process ------------------------------
(* Processes end in one of the ways the library offers, and whoever waits    *)
(* for them learns exactly that way: exit status, signal, stop.  Exit        *)
(* handlers run once each, in the order they were registered, with the       *)
(* status, when a process leaves through exit() (and so through die, todo,   *)
(* unreachable, not_implemented, a failed assertion), never otherwise.       *)
(* The testing framework runs every test in a process of its own and its     *)
(* verdict is what that process did.                                         *)
EXTENDS Text

MaxHandlers == 1024
Slots == 0..2
(* a child slot: no child; running; stopped; or struck by deadly signals, one of which its status will show *)
NoChild == [st |-> "none", by |-> {}]
Start(cfg) == [line |-> cfg.line, hs |-> <<>>, asserting |-> TRUE, ch |-> [k \in Slots |-> NoChild]]
Ret(s, r) == { [s |-> s, r |-> r] }

Ignored == {0, 17, 18, 23, 28}
Stopping == {19, 20, 21, 22}
Deadly(sig) == sig \in (1..31) \ (Ignored \cup Stopping)
(* exited, exit status, signaled, signal, stopped, stop signal -- of a status word *)
Decoded(st) == LET t == st % 128  c == (st \div 256) % 256
               IN << IF t = 0 THEN 1 ELSE 0, c, IF t \notin {0, 127} THEN 1 ELSE 0, t, IF st % 256 = 127 THEN 1 ELSE 0, c >>
Esc(n) == <<27, 91>> \o n \o <<109>>
RED == Esc(B("31"))  BOLD == Esc(B("1"))  GREEN == Esc(B("32"))  YELLOW == Esc(B("33"))  RESET == Esc(B("0"))
NL == <<10>>  TAB == <<9>>

Names == << "SIGHUP", "SIGINT", "SIGQUIT", "SIGILL", "SIGTRAP", "SIGABRT", "SIGBUS", "SIGFPE", "SIGKILL", "SIGUSR1", "SIGSEGV", "SIGUSR2", "SIGPIPE",
            "SIGALARM", "SIGTERM", "SIGSTKFLT", "SIGCHLD", "SIGCONT", "SIGSTOP", "SIGTSTP", "SIGTTIN", "SIGTTOU", "SIGURG", "SIGXCPU", "SIGXFSZ",
            "SIGVTALRM", "SIGPROF", "SIGWINCH", "SIGPOLL", "SIGPWR", "SIGSYS" >>
Name(n) == B(IF n \in 1..31 THEN Names[n] ELSE "<unknown>")

(* what the exit handlers leave behind when a process exits with this status *)
Log(hs, code) == Flat([i \in 1..Len(hs) |-> <<hs[i], code % 256>>])
AssertFailed == 136                                  \* Errno::ASSERT
File == B("drv_process.csp")
At_(line) == B("[") \o File \o B(":") \o INumeral(line) \o B("]")

(* how a child ends: status word, standard error, log *)
Exit(s, code, err) == << (code % 256) * 256, err, Log(s.hs, code) >>
Quiet(code, err) == << (code % 256) * 256, err, <<>> >>
Line(s, how) == IF how \in 4..12 THEN s.line + how - 4 ELSE 0
Failed(s, how, msg) == Exit(s, AssertFailed, RED \o File \o B(":") \o INumeral(Line(s, how)) \o B(" in do") \o INumeral(how) \o B("(): assertion failed: ") \o msg \o RESET \o NL)
Located(s, how, why) == Exit(s, 1, At_(Line(s, how)) \o B(": ") \o why \o NL)
Survives == Quiet(77, <<>>)
End(s, how, x, t) ==
  CASE how = 0  -> Exit(s, x, <<>>)
    [] how = 1  -> Exit(s, 1, t \o NL)
    [] how = 2  -> Quiet(2, B("CSpydr panic:") \o NL \o t \o NL)
    [] how = 3  -> IF Deadly(x) THEN << x, <<>>, <<>> >> ELSE Survives
    [] how = 4  -> IF s.asserting /\ x = 0 THEN Failed(s, how, t) ELSE Survives
    [] how = 5  -> IF s.asserting /\ x = 0 THEN Failed(s, how, <<>>) ELSE Survives
    [] how = 6  -> IF s.asserting /\ x # 0 THEN Failed(s, how, t) ELSE Survives
    [] how = 7  -> Located(s, how, B("reached todo!(): ") \o t)
    [] how = 8  -> Located(s, how, B("reached todo!()"))
    [] how = 9  -> Located(s, how, B("reached unreachable!(): ") \o t)
    [] how = 10 -> Located(s, how, B("reached unreachable!()"))
    [] how = 11 -> Located(s, how, B("do11() is not implemented."))
    [] how = 12 -> Located(s, how, B("the thing is not implemented."))
    [] how = 14 -> Exit(s, 1, <<>>)
    [] how = 13 -> Exit(IF Len(s.hs) < MaxHandlers THEN [s EXCEPT !.hs = Append(@, x)] ELSE s, 3, <<>>)

(* ---- the testing framework ---- *)
(* behaviour of a test: errors it reports, whether it skips, kills itself, leaves through a fatal assertion *)
Errors(b) == CASE b \in 1..9 -> b [] b = 11 -> 2 [] b = 14 -> 1 [] b = 17 -> 254 [] b = 18 -> 255 [] b = 19 -> 256 [] b = 20 -> 511 [] OTHER -> 0
Skips(b) == b \in {10, 16}
Kills(b) == CASE b = 12 -> 11 [] b = 21 -> 9 [] OTHER -> 0
(* 0 passed, 1 skipped, 2 failed *)
Verdict(b) == IF Skips(b) THEN 1 ELSE IF Kills(b) # 0 \/ Errors(b) > 0 THEN 2 ELSE 0
Title(i) == B("t") \o INumeral(i)
Complaint(i, how, msg) == NL \o B("    ") \o RED \o B("Test `") \o Title(i) \o B("` (") \o INumeral(i + 1) \o B("): ") \o B(how) \o msg \o RESET
Stderr(b, i) ==
  CASE b \in 1..9 -> Flat([k \in 1..b |-> Complaint(i, "assertion failed: ", B("bad ") \o INumeral(k - 1))])
    [] b = 11 -> Complaint(i, "assertion failed: ", B("first")) \o Complaint(i, "fatal assertion failed: ", B("then over"))
    [] b = 14 -> Complaint(i, "assertion failed: ", B("was true"))
    [] b = 15 -> B("<err>")
    [] OTHER -> <<>>
Stdout(b, i, n) ==
  B("Running test ") \o INumeral(i + 1) \o B("/") \o INumeral(n) \o B(": `") \o Title(i) \o B("`")
  \o (IF b = 15 THEN B("<out 15>") ELSE <<>>)
  \o (IF b = 22 THEN RESET \o NL \o B("    ") \o B("log 22") \o RESET ELSE <<>>)
  \o (IF Kills(b) # 0 THEN NL \o B("    ") \o RED \o B("Test `") \o Title(i) \o B("` (") \o INumeral(i + 1) \o B(") terminated with signal ") \o Name(Kills(b)) \o B(".") \o RESET ELSE <<>>)
  \o TAB \o (CASE Verdict(b) = 0 -> B("[ ") \o GREEN \o BOLD \o B("OK") \o RESET \o B(" ]")
               [] Verdict(b) = 1 -> B("[") \o YELLOW \o BOLD \o B("SKIP") \o RESET \o B("]")
               [] OTHER -> B("[") \o RED \o BOLD \o B("FAIL") \o RESET \o B("]")) \o NL
(* the handlers a test's process runs; it may leave with any status the framework can tell a failure by *)
TestLog(s, b) == IF Kills(b) # 0 THEN <<>> ELSE Log(s.hs, IF Skips(b) THEN 0 ELSE IF b = 11 THEN 2 ELSE Min2(Errors(b) + 1, 255))
Count(bs, v) == Cardinality({ i \in 1..Len(bs) : Verdict(bs[i]) = v })
Summary(bs) ==
  LET n == Len(bs)  ok == Count(bs, 0)  sk == Count(bs, 1)  ko == Count(bs, 2) IN
  IF ok = n THEN B("[ ") \o GREEN \o BOLD \o B("OK") \o RESET \o B(" ] All ") \o INumeral(n) \o B(" tests finished successfully.") \o NL
  ELSE IF ok + sk = n THEN B("[ ") \o GREEN \o BOLD \o B("OK") \o RESET \o B(" ] ") \o INumeral(ok) \o B(" of ") \o INumeral(n) \o B(" tests finished successfully, ") \o INumeral(sk) \o B(" were skipped.") \o NL
  ELSE B("[") \o RED \o BOLD \o B("FAIL") \o RESET \o B("] ") \o INumeral(ko) \o B(" of ") \o INumeral(n) \o B(" tests failed, ") \o INumeral(ok) \o B(" finished successfully, ") \o INumeral(sk) \o B(" skipped.") \o NL

(* ---- children one can watch ---- *)
Gone(s, k, sig) == [s |-> [s EXCEPT !.ch[k] = NoChild], r |-> <<1>> \o Decoded(sig)]
Still(s) == [s |-> s, r |-> <<0>> \o Decoded(0)]

Post(e, s) ==
  LET a == e.a  op == e.op IN
  CASE op = "handler"  -> IF Len(s.hs) < MaxHandlers THEN Ret([s EXCEPT !.hs = Append(@, a[1])], <<1>>) ELSE Ret(s, <<0>>)
    [] op = "handlers" -> LET n == Min2(a[2], MaxHandlers - Len(s.hs)) IN Ret([s EXCEPT !.hs = @ \o [i \in 1..n |-> a[1]]], <<n>>)
    [] op = "enable"   -> Ret([s EXCEPT !.asserting = TRUE], <<1>>)
    [] op = "disable"  -> Ret([s EXCEPT !.asserting = FALSE], <<0>>)
    [] op = "child"    -> LET q == End(s, a[1], a[2], a[3])  st == q[1] IN
                          Ret(s, <<1>> \o Decoded(st) \o << Line(s, a[1]), st, <<>>, q[2], q[3] >>)
    [] op = "decode"   -> Ret(s, Decoded(a[1]))
    [] op = "name"     -> Ret(s, << Name(a[1]) >>)
    [] op = "pids"     -> Ret(s, <<1>>)
    [] op = "spawn"    -> Ret([s EXCEPT !.ch[a[1]] = [st |-> "run", by |-> {}]], <<1>>)
    [] op = "kill"     -> LET k == a[1]  sig == a[2] IN
                          Ret(IF Deadly(sig) THEN [s EXCEPT !.ch[k].by = @ \cup {sig}] ELSE s, <<0>>)
    [] op = "poll"     -> LET c == s.ch[a[1]] IN { Gone(s, a[1], sig) : sig \in c.by } \cup { Still(s) }
    [] op = "reap"     -> LET c == s.ch[a[1]] IN { Gone(s, a[1], sig) : sig \in c.by }
    [] op = "stop"     -> Ret([s EXCEPT !.ch[a[1]].st = "stop"], <<1>> \o Decoded(19 * 256 + 127))
    [] op = "cont"     -> Ret([s EXCEPT !.ch[a[1]].st = "run"], <<1>> \o Decoded(65535))
    [] op = "exec"     -> (* a shell that says its name and a variable of its environment and exits with its name as the status *)
                          IF a[1] = 0 THEN Ret(s, <<1>> \o Decoded((W2Nat(ReadInt(a[2])) % 256) * 256) \o << a[2] \o B(" ") \o Sub(a[3], 2, Len(a[3])) \o NL, <<>> >>)
                          ELSE Ret(s, <<1>> \o Decoded(99 * 256) \o << <<>>, Log(s.hs, 99) >>)
    [] op = "suite"    -> LET bs == a[1]  ko == Count(bs, 2) IN
                          Ret(s, << ko, Count(bs, 0), Count(bs, 1), ko, Flat([i \in 1..Len(bs) |-> Stdout(bs[i], i - 1, Len(bs))]) \o Summary(bs),
                                    Flat([i \in 1..Len(bs) |-> Stderr(bs[i], i - 1)]), Flat([i \in 1..Len(bs) |-> TestLog(s, bs[i])]) >>)
    [] op = "run"      -> LET bs == a[1]  i == a[2] IN
                          IF i >= Len(bs) THEN Ret(s, << 2, 1, <<>>, <<>>, <<>> >>)
                          ELSE Ret(s, << Verdict(bs[i + 1]), 0, Stdout(bs[i + 1], i, Len(bs)), Stderr(bs[i + 1], i), TestLog(s, bs[i + 1]) >>)
    [] op = "nothing"  -> Ret(s, << 2, 1, 0, 1, 1, 1, 1 >>)     \* no suite: failed, complains; nobody to complain about; assertions complain
(* what may be asked: nobody waits for a child that will not end, signals go to children that are there *)
Enabled(e, s) ==
  CASE e.op = "spawn" -> s.ch[e.a[1]].st = "none"
    [] e.op = "poll" -> s.ch[e.a[1]].st # "none"
    [] e.op = "reap" -> s.ch[e.a[1]].by # {} 
    [] e.op = "kill" -> LET c == s.ch[e.a[1]] IN c.st = "run" \/ (c.st = "stop" /\ e.a[2] \in {0, 9})
    [] e.op = "stop" -> s.ch[e.a[1]] = [st |-> "run", by |-> {}]
    [] e.op = "cont" -> s.ch[e.a[1]] = [st |-> "stop", by |-> {}]
    [] OTHER -> TRUE
Inv(s) == Len(s.hs) <= MaxHandlers /\ \A k \in Slots : s.ch[k].st = "none" => s.ch[k].by = {}
Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("spawn", <<0>>), Op("spawn", <<1>>), Op("kill", <<0, 15>>), Op("kill", <<0, 9>>), Op("kill", <<1, 2>>), Op("poll", <<0>>), Op("reap", <<0>>), Op("reap", <<1>>),
              Op("stop", <<0>>), Op("cont", <<0>>), Op("handler", <<1>>), Op("disable", <<>>), Op("child", <<4, 0, <<120>>>>), Op("child", <<0, 7, <<>>>>), Op("run", << <<2>>, 0 >>) }
=============================================================================

------------------------------- MODULE Kernel -------------------------------
(* std::syscall over the system call interface of Linux on x86-64: every     *)
(* wrapper makes exactly one call, the one of its name, with its arguments   *)
(* in order, and returns what the kernel answers.  The kernel is played by   *)
(* harness/c/kernel.c.                                                       *)
(* std::clock, std::time and std::timer over a clock played by the same      *)
(* program: the clock only moves when somebody sleeps or sets it.            *)
EXTENDS Text

(* number, bytes of every argument the kernel reads (0: must be zero), bytes of the result (5: 4, unsigned) *)
Sig == [
  read |-> <<0, <<4, 8, 8>>, 8>>, write |-> <<1, <<4, 8, 8>>, 8>>, open |-> <<2, <<8, 4, 4>>, 4>>, close |-> <<3, <<4>>, 4>>,
  stat |-> <<4, <<8, 8>>, 4>>, fstat |-> <<5, <<4, 8>>, 4>>, lstat |-> <<6, <<8, 8>>, 4>>, poll |-> <<7, <<8, 4, 4>>, 4>>,
  lseek |-> <<8, <<4, 8, 4>>, 8>>, mmap |-> <<9, <<8, 8, 8, 4, 4, 8>>, 8>>, mprotect |-> <<10, <<8, 8, 8>>, 4>>, munmap |-> <<11, <<8, 8>>, 4>>,
  brk |-> <<12, <<8>>, 4>>, ioctl |-> <<16, <<4, 4, 8>>, 4>>, pread64 |-> <<17, <<4, 8, 8, 8>>, 8>>, pwrite64 |-> <<18, <<4, 8, 8, 8>>, 8>>,
  readv |-> <<19, <<4, 8, 4>>, 8>>, writev |-> <<20, <<4, 8, 4>>, 8>>, access |-> <<21, <<8, 4>>, 4>>, pipe |-> <<22, <<8>>, 4>>,
  shed_yield |-> <<24, <<>>, 4>>, mremap |-> <<25, <<8, 8, 8, 8>>, 8>>, msync |-> <<26, <<8, 8, 4>>, 4>>, mincore |-> <<27, <<8, 8, 8>>, 4>>,
  madvise |-> <<28, <<8, 8, 4>>, 4>>, shmget |-> <<29, <<4, 8, 4>>, 4>>, shmat |-> <<30, <<4, 8, 4>>, 8>>, dup |-> <<32, <<4>>, 4>>,
  dup2 |-> <<33, <<4, 4>>, 4>>, pause |-> <<34, <<>>, 4>>, nanosleep |-> <<35, <<8, 8>>, 4>>, alarm |-> <<37, <<4>>, 5>>,
  getpid |-> <<39, <<>>, 4>>, sendfile |-> <<40, <<4, 4, 8, 8>>, 8>>, socket |-> <<41, <<4, 4, 4>>, 4>>, accept |-> <<43, <<4, 8, 8>>, 4>>,
  sendto |-> <<44, <<4, 8, 8, 4, 0, 0>>, 8>>, recvfrom |-> <<45, <<4, 8, 8, 4, 8, 8>>, 8>>, shutdown |-> <<48, <<4, 4>>, 4>>, bind |-> <<49, <<4, 8, 4>>, 4>>,
  listen |-> <<50, <<4, 4>>, 4>>, getsockname |-> <<51, <<4, 8, 8>>, 4>>, getpeername |-> <<52, <<4, 8, 8>>, 4>>, socketpair |-> <<53, <<4, 4, 4, 8>>, 4>>,
  setsockopt |-> <<54, <<4, 4, 4, 8, 4>>, 4>>, getsockopt |-> <<55, <<4, 4, 4, 8, 8>>, 4>>, clone |-> <<56, <<8, 8, 4, 8>>, 4>>, fork |-> <<57, <<>>, 4>>,
  vfork |-> <<58, <<>>, 4>>, execve |-> <<59, <<8, 8, 8>>, 4>>, wait4 |-> <<61, <<4, 8, 4, 8>>, 4>>, kill |-> <<62, <<4, 4>>, 4>>, getppid |-> <<110, <<>>, 4>>,
  uname |-> <<63, <<8>>, 4>>, semget |-> <<64, <<4, 4, 4>>, 4>>, semop |-> <<65, <<4, 8, 8>>, 4>>, semctl |-> <<66, <<4, 4, 4>>, 4>>, shmdt |-> <<67, <<8>>, 4>>,
  msgget |-> <<68, <<4, 4>>, 4>>, msgsnd |-> <<69, <<4, 8, 8, 4>>, 4>>, msgrcv |-> <<70, <<4, 8, 8, 8, 4>>, 8>>, fcntl |-> <<72, <<4, 4>>, 4>>,
  fcntl2 |-> <<72, <<4, 4, 4>>, 4>>, flock |-> <<73, <<4, 4>>, 4>>, fsync |-> <<74, <<4>>, 4>>, fdatasync |-> <<75, <<4>>, 4>>,
  truncate |-> <<76, <<8, 8>>, 4>>, ftruncate |-> <<77, <<4, 8>>, 4>>, getdents |-> <<78, <<4, 8, 4>>, 8>>, getdents64 |-> <<217, <<4, 8, 4>>, 8>>, getcwd |-> <<79, <<8, 8>>, 8>>,
  chdir |-> <<80, <<8>>, 4>>, fchdir |-> <<81, <<4>>, 4>>, rename |-> <<82, <<8, 8>>, 4>>, mkdir |-> <<83, <<8, 4>>, 4>>, rmdir |-> <<84, <<8>>, 4>>,
  creat |-> <<85, <<8, 4>>, 4>>, link |-> <<86, <<8, 8>>, 4>>, unlink |-> <<87, <<8>>, 4>>, symlink |-> <<88, <<8, 8>>, 4>>, readlink |-> <<89, <<8, 8, 8>>, 8>>,
  chmod |-> <<90, <<8, 4>>, 4>>, fchmod |-> <<91, <<4, 4>>, 4>>, clock_gettime |-> <<228, <<4, 8>>, 4>>, clock_settime |-> <<227, <<4, 8>>, 4>>,
  gettimeofday |-> <<96, <<8, 8>>, 4>>, time |-> <<201, <<8>>, 8>> ]

Start(cfg) == [old |-> FALSE, now |-> <<W0, 0>>]
Low(w, n) == SubSeq(w, 1, n)
SE(w, n) == IF n = 0 THEN W0 ELSE IF n = 5 THEN Low(w, 4) \o <<0, 0, 0, 0>> ELSE LET e == IF w[n] >= 128 THEN 255 ELSE 0 IN [i \in 1..8 |-> IF i <= n THEN w[i] ELSE e]

(* the clock: seconds as a word, nanoseconds.  On a kernel without            *)
(* clock_gettime the library asks for microseconds instead.                   *)
ClockNs(s) == IF s.old THEN (s.now[2] \div 1000) * 1000 ELSE s.now[2]
Billion == 1000000000
Plus(t, sec, ns) == IF t[2] + ns >= Billion THEN << WAdd(WAdd(t[1], sec), W1), t[2] + ns - Billion >> ELSE << WAdd(t[1], sec), t[2] + ns >>
Millis(ms) == << Nat2W(ms \div 1000), (ms % 1000) * 1000000 >>
(* the civil calendar (proleptic Gregorian), counted a day at a time from the start of a year *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y) == IF Leap(y) THEN 366 ELSE 365
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
YearStart(y) == 365 * (y - 1970) + ((y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400) - (1969 \div 4 - 1969 \div 100 + 1969 \div 400)
YearOf(d) == LET g == 1970 + d \div 366 IN CHOOSE y \in g..(g + 2 + (d \div 366) \div 400) : YearStart(y) <= d /\ d < YearStart(y) + DaysIn(y)
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, d) == IF d < MonthDays(y)[m] THEN << m, d + 1 >> ELSE MonthOf(y, m + 1, d - MonthDays(y)[m])
Calendar(w) == (* w: seconds since 1970, below 2^53 *)
  LET q == WDivS(w, Nat2W(86400))  day == W2Nat(q)  r == W2Nat(WModS(w, Nat2W(86400)))
      y == YearOf(day)  md == MonthOf(y, 1, day - YearStart(y))
  IN << y, md[1], md[2], r \div 3600, (r \div 60) % 60, r % 60 >>

Ret(s, r) == { [s |-> s, r |-> r] }
Post(e, s) ==
  LET a == e.a IN
  CASE e.op \in DOMAIN Sig ->
         (* six arguments, the kernel's answer -> how many calls, the number, six registers, the value returned *)
         LET g == Sig[e.op]  n == Len(g[2])
             want == << W1, Nat2W(g[1]) >> \o [i \in 1..6 |-> IF i > n THEN e.r[2 + i] ELSE IF g[2][i] = 0 THEN W0 ELSE Low(a[i], g[2][i]) \o Sub(e.r[2 + i], g[2][i], 8)] \o << SE(a[7], g[3]) >>
         IN IF Len(e.r) = 9 THEN Ret(s, want) ELSE {}
    [] e.op = "begin"  -> Ret([old |-> a[3] = 1, now |-> << a[1], a[2] >>], <<0>>)
    [] e.op = "date"   -> LET c == Calendar(s.now[1]) IN Ret(s, c \o << s.now[1], s.now[2] \div 1000 >>)
    [] e.op = "now"    -> Ret(s, << 0, s.now[1], ClockNs(s) >>)
    [] e.op = "tod"    -> Ret(s, << s.now[1], s.now[2] \div 1000 >>)
    [] e.op = "secs"   -> Ret(s, << s.now[1] >>)
    [] e.op = "setnow" -> Ret([s EXCEPT !.now = << a[1], a[2] >>], << 0 >>)
    [] e.op = "other"  -> Ret(s, << -22 >>)                       \* no such clock
    [] e.op = "sleep"  -> Ret([s EXCEPT !.now = Plus(@, a[1], a[2])], << 0 >>)
    [] e.op = "delay"  -> LET d == Millis(a[1]) IN Ret([s EXCEPT !.now = Plus(@, d[1], d[2])], << 0 >>)
    [] e.op = "until"  -> (* a[2] calls that return true, then one that does not: as many delays between *)
         LET d == Millis(a[1] * a[2]) IN Ret([s EXCEPT !.now = Plus(@, d[1], d[2])], << a[2] + 1 >>)
Enabled(e, s) == TRUE
Inv(s) == s.now[2] \in 0..(Billion - 1)
=============================================================================

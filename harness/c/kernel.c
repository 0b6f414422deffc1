/* A stand-in for the kernel: runs a program it starts itself and answers some of its system calls.
 *   number 9990 (result)    take every following system call, do not perform it, return `result`
 *   number 9991 (k)         what was taken first: k = 0 the number, 1..6 the arguments; k = 7 how many; ends the taking
 *   number 9992 (sec, nsec, old) from now on the clock is ours and stands at this time; old: there is no clock_gettime
 *   number 9993 (k)         k = 0 seconds, 1 nanoseconds slept in all, 2 system calls about time seen
 * Everything else goes to the real kernel.  Without this program those numbers fail with ENOSYS, which drivers check. */
#define _GNU_SOURCE
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
typedef unsigned long long u64;
static u64 taken[7], armed_result, sec, nsec, slept_s, slept_n, seen;
static int armed, ours, nosys, count;
static void put(pid_t p, u64 addr, u64 v) { if (addr) ptrace(PTRACE_POKEDATA, p, addr, v); }
static u64 get(pid_t p, u64 addr) { return ptrace(PTRACE_PEEKDATA, p, addr, 0); }
int main(int argc, char **argv) {
    pid_t p = fork();
    if (!p) { ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); execv(argv[1], argv + 1); _exit(126); }
    int st; waitpid(p, &st, 0);
    if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) { perror("ptrace"); kill(p, 9); return 125; }
    int in = 0, sub = 0, sig = 0; u64 result = 0;
    for (;;) {
        ptrace(PTRACE_SYSCALL, p, 0, sig); sig = 0;
        if (waitpid(p, &st, 0) < 0) return 125;
        if (WIFEXITED(st)) return WEXITSTATUS(st);
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); return 128 + WTERMSIG(st); }
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); if (sig == SIGTRAP || sig == SIGSTOP) sig = 0; continue; }
        struct user_regs_struct r; ptrace(PTRACE_GETREGS, p, 0, &r);
        if (!in) {
            in = 1; sub = 0; u64 n = (unsigned) r.orig_rax;      /* the kernel looks at 32 bits */
            if (n == 9990) { armed = 1; count = 0; armed_result = r.rdi; sub = 1; result = 0; }
            else if (n == 9991) { armed = 0; sub = 1; result = r.rdi == 7 ? (u64) count : taken[r.rdi % 7]; }
            else if (n == 9992) { ours = 1; sec = r.rdi; nsec = r.rsi; nosys = r.rdx != 0; slept_s = slept_n = seen = 0; sub = 1; result = 0; }
            else if (n == 9993) { sub = 1; result = r.rdi == 0 ? slept_s : r.rdi == 1 ? slept_n : seen; }
            else if (armed) {
                sub = 1; result = armed_result;
                u64 t[7] = {n, r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9}; if (!count++) memcpy(taken, t, sizeof t);
            }
            else if (ours && (n == 228 || n == 227 || n == 96 || n == 201 || n == 35)) {
                sub = 1; result = 0; seen++;
                if (n == 228 && nosys) result = -ENOSYS;
                else if (n == 228) { if ((int) r.rdi == 0) { put(p, r.rsi, sec); put(p, r.rsi + 8, nsec); } else result = -EINVAL; }
                else if (n == 227) { if ((int) r.rdi == 0) { sec = get(p, r.rsi); nsec = get(p, r.rsi + 8); } else result = -EINVAL; }
                else if (n == 96) { put(p, r.rdi, sec); put(p, r.rdi + 8, nsec / 1000); }
                else if (n == 201) { put(p, r.rdi, sec); result = sec; }
                else {
                    u64 s = get(p, r.rdi), ns = get(p, r.rdi + 8);
                    if ((long long) s < 0 || ns > 999999999) result = -EINVAL;
                    else {
                        sec += s; nsec += ns; if (nsec > 999999999) { nsec -= 1000000000; sec++; }
                        slept_s += s; slept_n += ns; if (slept_n > 999999999) { slept_n -= 1000000000; slept_s++; }
                    }
                }
            }
            if (sub) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); }
        } else {
            in = 0;
            if (sub) { r.rax = result; ptrace(PTRACE_SETREGS, p, 0, &r); }
        }
    }
}

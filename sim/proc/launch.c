// Starts simulated processes, one per request line on stdin, fields separated
// by tabs: timeout_ms, cwd, stdin, stdout, stderr, exe, argv0, n args, args.., env...
// Replies "status\n": exit code, or 1000+signal, or 2000 on timeout.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static long now_ms(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

int main(void) {
    personality(ADDR_NO_RANDOMIZE);
    prctl(PR_SET_PDEATHSIG, SIGKILL);  // nothing outlives the check
    struct rlimit z = {0, 0};
    setrlimit(RLIMIT_CORE, &z);
    struct rlimit as = {2ul << 30, 2ul << 30};
    setrlimit(RLIMIT_AS, &as);
    sigset_t chld;
    sigemptyset(&chld);
    sigaddset(&chld, SIGCHLD);
    sigprocmask(SIG_BLOCK, &chld, 0);
    char *line = 0;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[n - 1] = 0;
        char *f[256];
        int c = 0;
        for (char *p = line; p && c < 255;) {
            char *t = strchr(p, '\t');
            if (t) *t = 0;
            f[c++] = p;
            p = t ? t + 1 : 0;
        }
        f[c] = 0;
        long timeout = atol(f[0]);
        int nargs = atoi(f[7]);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            sigprocmask(SIG_UNBLOCK, &chld, 0);
            signal(SIGPIPE, SIG_DFL);
            struct rlimit cpu = {timeout / 1000 + 1, timeout / 1000 + 3};
            setrlimit(RLIMIT_CPU, &cpu);
            int in = open(f[2], O_RDONLY), out = open(f[3], O_WRONLY | O_CREAT | O_TRUNC, 0600),
                err = open(f[4], O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (in < 0 || out < 0 || err < 0 || chdir(f[1])) _exit(95);
            dup2(in, 0);
            dup2(out, 1);
            dup2(err, 2);
            for (int i = 3; i < 64; i++) close(i);
            char *argv[64];
            argv[0] = f[6];
            for (int i = 0; i < nargs; i++) argv[i + 1] = f[8 + i];
            argv[nargs + 1] = 0;
            execve(f[5], argv, f + 8 + nargs);
            _exit(94);
        }
        int st = 0, res;
        long end = now_ms() + timeout * 4 + 10000;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) {
                res = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
                break;
            }
            long left = end - now_ms();
            if (left <= 0) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                res = 2000;
                break;
            }
            struct timespec ts = {left / 1000, (left % 1000) * 1000000};
            sigtimedwait(&chld, 0, &ts);
        }
        if (res == 1000 + SIGXCPU) res = 2000;
        printf("%d\n", res);
        fflush(stdout);
    }
    return 0;
}

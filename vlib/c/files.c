/* The file interfaces of the C library.  One command per line:
 *   s LIMIT FROM PATCH TO       detools_apply_patch_filenames
 *   p LIMIT MEMORY PATCH        detools_apply_patch_in_place_filenames
 *   c LIMIT TOOL ARGS...        the command line tool
 * LIMIT: size no file may exceed (-1: none).  Each command runs in a child
 * of its own; the answer is a JSON line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "detools.h"

static int fds(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");

    while (d && readdir(d)) {
        n++;
    }

    if (d) {
        closedir(d);
    }

    return n;
}

int main(void)
{
    char line[8192];
    int hung = 0;
    char *argv[16];

    while (fgets(line, sizeof(line), stdin)) {
        int argc = 0;
        int answer[2] = { 0, 0 };
        int status = 0;
        int ends[2];
        char *p;

        for (p = strtok(line, " \n"); p && argc < 15; p = strtok(NULL, " \n")) {
            argv[argc++] = p;
        }

        argv[argc] = NULL;

        if (argc < 3 || pipe(ends) != 0) {
            return 2;
        }

        fflush(stdout);
        pid_t pid = fork();

        if (pid == 0) {
            long limit = atol(argv[1]);
            close(ends[0]);
            signal(SIGXFSZ, SIG_IGN);

            if (limit >= 0) {
                struct rlimit rl = { (rlim_t)limit, (rlim_t)limit };
                setrlimit(RLIMIT_FSIZE, &rl);
            }

            alarm(hung < 2 ? 15 : 1);

            if (argv[0][0] == 'c') {
                int null = open("/dev/null", O_WRONLY);
                dup2(null, 1);
                dup2(null, 2);
                execv(argv[2], argv + 2);
                _exit(99);
            }

            int before = fds();
            int res;

            if (argv[0][0] == 's') {
                res = detools_apply_patch_filenames(argv[2], argv[3], argv[4]);
            } else {
                res = detools_apply_patch_in_place_filenames(argv[2], argv[3], NULL, NULL);
            }

            answer[0] = res;
            answer[1] = fds() - before;

            if (write(ends[1], answer, sizeof(answer)) != sizeof(answer)) {
                _exit(98);
            }

            /* (without the exit handlers: what was not written by now is lost) */
            _exit(0);
        }

        close(ends[1]);
        int got = read(ends[0], answer, sizeof(answer)) == sizeof(answer);
        close(ends[0]);
        waitpid(pid, &status, 0);
        hung += WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM;

        if (argv[0][0] == 'c') {
            printf("{\"exit\": %d, \"sig\": %d}\n", WIFEXITED(status) ? WEXITSTATUS(status) : -1,
                   WIFSIGNALED(status) ? WTERMSIG(status) : 0);
        } else {
            printf("{\"res\": %d, \"leak\": %d, \"sig\": %d}\n", got ? answer[0] : 0, answer[1],
                   got ? 0 : WIFSIGNALED(status) ? WTERMSIG(status) : 1);
        }

        fflush(stdout);
    }

    return 0;
}

/* The $SHELL of the server under test: reports its arguments and environment to the harness and exits as told. */
#include <stdint.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
extern char **environ;
static char buf[1 << 20];
static size_t len;
static void put(const char *s)
{
    size_t n = strlen(s) + 1;
    if (len + n < sizeof buf) { memcpy(buf + len, s, n); len += n; }
}
int main(int argc, char **argv)
{
    const char *p = getenv("FAKESH_SOCK");
    if (!p) return 98;
    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
    struct sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, p, sizeof a.sun_path - 1);
    if (connect(fd, (struct sockaddr *)&a, sizeof a)) return 97;
    char t[64];
    snprintf(t, sizeof t, "%d", (int)getpid()); put(t);
    snprintf(t, sizeof t, "%d", argc - 1); put(t);
    for (int i = 1; i < argc; i++) put(argv[i]);
    for (char **e = environ; *e; e++) put(*e);
    uint32_t n = (uint32_t)len;
    if (write(fd, &n, 4) != 4) return 96;
    for (size_t o = 0; o < len;) { ssize_t k = write(fd, buf + o, len - o); if (k <= 0) return 96; o += k; }
    unsigned char c;
    if (read(fd, &c, 1) != 1) return 99;
    if (c >= 200 && c < 232) { signal(c - 200, SIG_DFL); kill(getpid(), c - 200); pause(); } /* end by a signal */
    return c;
}

// Scripted child process: every argument up to "--" is one operation.
#define _GNU_SOURCE
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static int g_argc;
static char **g_argv;
static int in_fd = 0, out_fd = 1;
static int log_fd = -1;
static int sig_action[65];
static int sig_code[65];
static int sig_ms[65];
static uint8_t TEXT[256];

static long long now_ns(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec;
}

static void msleep(long ms) {
  long long end = now_ns() + ms * 1000000LL;
  for (;;) {
    long long left = end - now_ns();
    if (left <= 0) return;
    struct timespec ts = {left / 1000000000LL, left % 1000000000LL};
    nanosleep(&ts, NULL);
  }
}

static void logline(const char *tag, const char *text) {
  if (log_fd < 0) return;
  char buf[512];
  int n = snprintf(buf, sizeof buf, "%s %lld %d %s\n", tag, now_ns(), (int)getpid(), text);
  if (write(log_fd, buf, n) < 0) {
  }
}

static void on_signal(int sig) {
  int saved = errno;
  char b[16];
  snprintf(b, sizeof b, "%d", sig);
  logline("S", b);
  if (sig_action[sig] == 1) {
    if (sig_ms[sig]) msleep(sig_ms[sig]);
    logline("E", b);
    _exit(sig_code[sig]);
  }
  errno = saved;
}

static void wr(int fd, const void *p, size_t n) {
  const char *q = p;
  while (n) {
    ssize_t k = write(fd, q, n);
    if (k < 0) {
      if (errno == EINTR) continue;
      if (errno == EAGAIN) {
        struct pollfd pf = {fd, POLLOUT, 0};
        poll(&pf, 1, 1000);
        continue;
      }
      _exit(97);
    }
    q += k;
    n -= k;
  }
}

static ssize_t rd(int fd, void *p, size_t n) {
  for (;;) {
    ssize_t k = read(fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k < 0 && errno == EAGAIN) {
      struct pollfd pf = {fd, POLLIN, 0};
      poll(&pf, 1, 1000);
      continue;
    }
    if (k < 0) return 0;  // EIO on a tty counts as EOF
    return k;
  }
}

static void hexout(int fd, const char *s) {
  size_t n = strlen(s);
  char *b = malloc(2 * n + 2), *q = b;
  for (size_t i = 0; i < n; i++) q += sprintf(q, "%02x", (unsigned char)s[i]);
  *q++ = '\n';
  wr(fd, b, q - b);
  free(b);
}

static uint32_t crc_tab[256];
static void crc_init(void) {
  for (uint32_t i = 0; i < 256; i++) {
    uint32_t c = i;
    for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
    crc_tab[i] = c;
  }
}

static uint8_t pat(long seed, unsigned long i) {
  return (uint8_t)(seed * 131 + (long)(i >> 8) * 13 + (long)(i >> 16) * 29 + (long)(i & 255) * 7);
}

#define MAXF 8
static int split(char *op, char **f) {
  int n = 0;
  f[n++] = op;
  for (char *p = op; *p && n < MAXF; p++)
    if (*p == ':') {
      *p = 0;
      f[n++] = p + 1;
    }
  return n;
}

static int run_ops(int n, char **ops);

static void do_repl(void) {
  size_t cap = 1 << 20, len = 0;
  char *buf = malloc(cap);
  for (;;) {
    char *nl;
    while ((nl = memchr(buf, '\n', len)) || (len > 0 && (nl = memchr(buf, '\r', len)))) {
      *nl = 0;
      size_t used = nl - buf + 1;
      char *line = strdup(buf);
      memmove(buf, buf + used, len - used);
      len -= used;
      char *ops[256];
      int n = 0;
      for (char *t = strtok(line, " "); t && n < 256; t = strtok(NULL, " ")) ops[n++] = t;
      run_ops(n, ops);
      free(line);
    }
    if (len >= cap) _exit(96);
    ssize_t k = rd(in_fd, buf + len, cap - len);
    if (k <= 0) break;
    len += k;
  }
  free(buf);
}

static int run_ops(int n, char **ops) {
  static char buf[65536];
  for (int i = 0; i < n; i++) {
    char *copy = strdup(ops[i]);
    char *f[MAXF] = {0};
    int nf = split(copy, f);
    const char *o = f[0];
#define A(k) (nf > (k) ? atol(f[k]) : 0)
    if (!strcmp(o, "w")) {
      const char *h = nf > 2 ? f[2] : "";
      size_t m = strlen(h) / 2;
      char *b = malloc(m + 1);
      for (size_t j = 0; j < m; j++) {
        unsigned v;
        sscanf(h + 2 * j, "%2x", &v);
        b[j] = (char)v;
      }
      wr(A(1), b, m);
      free(b);
    } else if (!strcmp(o, "p") || !strcmp(o, "t")) {
      long fd = A(1), seed = A(2), len = A(3), chunk = nf > 4 ? A(4) : 65536;
      char *b = malloc(len + 1);
      for (long j = 0; j < len; j++) {
        uint8_t c = pat(seed, j);
        b[j] = o[0] == 't' ? TEXT[c] : c;
      }
      for (long j = 0; j < len; j += chunk) wr(fd, b + j, len - j < chunk ? len - j : chunk);
      free(b);
    } else if (!strcmp(o, "s")) {
      msleep(A(1));
    } else if (!strcmp(o, "x")) {
      logline("X", f[1]);
      _exit(A(1));
    } else if (!strcmp(o, "k")) {
      int sig = A(1);
      signal(sig, SIG_DFL);
      sigset_t ss;
      sigemptyset(&ss);
      sigaddset(&ss, sig);
      sigprocmask(SIG_UNBLOCK, &ss, NULL);
      kill(getpid(), sig);
      msleep(20);
    } else if (!strcmp(o, "cat") || !strcmp(o, "map") || !strcmp(o, "dup") || !strcmp(o, "drop") ||
               !strcmp(o, "take") || !strcmp(o, "del") || !strcmp(o, "drain") || !strcmp(o, "cnt")) {
      long a = A(1);
      long left = a;
      uint32_t crc = 0xffffffffu;
      unsigned long long total = 0;
      char *out = malloc(2 * sizeof buf);
      size_t chunk = !strcmp(o, "cat") && nf > 1 && a > 0 ? (size_t)a : sizeof buf;
      for (;;) {
        if (!strcmp(o, "take") && left <= 0) break;
        size_t want = chunk < sizeof buf ? chunk : sizeof buf;
        if (!strcmp(o, "take") && (long)want > left) want = left;
        ssize_t k = rd(in_fd, buf, want);
        if (k <= 0) break;
        total += k;
        size_t m = 0;
        for (ssize_t j = 0; j < k; j++) {
          uint8_t c = buf[j];
          if (o[0] == 'c' && o[1] == 'n') {
            crc = crc_tab[(crc ^ c) & 255] ^ (crc >> 8);
            continue;
          }
          if (!strcmp(o, "drain")) continue;
          if (!strcmp(o, "map")) c = (uint8_t)(c + a);
          if (!strcmp(o, "del") && c == (uint8_t)a) continue;
          if (!strcmp(o, "drop") && left > 0) {
            left--;
            continue;
          }
          if (!strcmp(o, "take")) left--;
          out[m++] = c;
          if (!strcmp(o, "dup")) out[m++] = c;
        }
        if (m) wr(out_fd, out, m);
      }
      free(out);
      if (!strcmp(o, "cnt")) {
        char b[64];
        int m = snprintf(b, sizeof b, "n=%llu h=%08x\n", total, crc ^ 0xffffffffu);
        wr(nf > 1 ? a : out_fd, b, m);
      }
    } else if (!strcmp(o, "rd")) {
      long left = A(1);
      while (left > 0) {
        ssize_t k = rd(in_fd, buf, left < (long)sizeof buf ? left : (long)sizeof buf);
        if (k <= 0) break;
        left -= k;
      }
    } else if (!strcmp(o, "in")) {
      in_fd = A(1);
    } else if (!strcmp(o, "out")) {
      out_fd = A(1);
    } else if (!strcmp(o, "if") || !strcmp(o, "of") || !strcmp(o, "af")) {
      const char *path = i + 1 < n ? ops[++i] : "";
      int fl = o[0] == 'i' ? O_RDONLY : o[0] == 'o' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
      int fd = open(path, fl, 0644);
      if (fd < 0) {
        dprintf(2, "open %s: %s\n", path, strerror(errno));
        _exit(95);
      }
      if (fd != A(1)) {
        dup2(fd, A(1));
        close(fd);
      }
    } else if (!strcmp(o, "tee")) {  // tee:FD : stdin to out_fd and FD
      for (;;) {
        ssize_t k = rd(in_fd, buf, sizeof buf);
        if (k <= 0) break;
        wr(A(1), buf, k);
        wr(out_fd, buf, k);
      }
    } else if (!strcmp(o, "close")) {
      close(A(1));
    } else if (!strcmp(o, "fds")) {
      DIR *d = opendir("/proc/self/fd");
      struct dirent *e;
      while (d && (e = readdir(d))) {
        if (!isdigit((unsigned char)e->d_name[0])) continue;
        int fd = atoi(e->d_name);
        if (fd == dirfd(d)) continue;
        struct stat st;
        if (fstat(fd, &st)) continue;
        dprintf(out_fd, "%d %o %llu %llu\n", fd, st.st_mode & S_IFMT, (unsigned long long)st.st_dev, (unsigned long long)st.st_ino);
      }
      if (d) closedir(d);
    } else if (!strcmp(o, "argv")) {
      int on = 0;
      for (int j = 1; j < g_argc; j++) {
        if (on) hexout(out_fd, g_argv[j]);
        else if (!strcmp(g_argv[j], "--")) on = 1;
      }
    } else if (!strcmp(o, "env")) {
      for (char **e = environ; *e; e++) hexout(out_fd, *e);
    } else if (!strcmp(o, "arg0")) {
      hexout(out_fd, g_argv[0]);
      ssize_t k = readlink("/proc/self/exe", buf, sizeof buf - 1);
      buf[k < 0 ? 0 : k] = 0;
      hexout(out_fd, buf);
    } else if (!strcmp(o, "sig")) {
      int sig = A(1);
      if (nf > 2 && !strcmp(f[2], "ign")) signal(sig, SIG_IGN);
      else if (nf > 2 && !strcmp(f[2], "dfl")) signal(sig, SIG_DFL);
      else {
        sig_action[sig] = nf > 2 && !strcmp(f[2], "exit") ? 1 : 0;
        sig_code[sig] = A(3);
        sig_ms[sig] = A(4);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_RESTART;
        sigaction(sig, &sa, NULL);
      }
    } else if (!strcmp(o, "logfile")) {
      const char *path = i + 1 < n ? ops[++i] : "";
      int fd = open(path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
      log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 200);
      close(fd);
    } else if (!strcmp(o, "log")) {
      logline("L", nf > 1 ? f[1] : "");
    } else if (!strcmp(o, "wait")) {
      const char *path = i + 1 < n ? ops[++i] : "";
      struct stat st;
      for (int k = 0; stat(path, &st); k++) {
        if (k > 30000) _exit(99);
        msleep(2);
      }
    } else if (!strcmp(o, "touch")) {
      const char *path = i + 1 < n ? ops[++i] : "";
      close(open(path, O_WRONLY | O_CREAT, 0644));
    } else if (!strcmp(o, "pause")) {
      for (;;) pause();
    } else if (!strcmp(o, "fork")) {
      int cnt = A(1);
      pid_t pid = fork();
      if (pid == 0) {
        alarm(100);
        run_ops(cnt < n - i - 1 ? cnt : n - i - 1, ops + i + 1);
        _exit(0);
      }
      i += cnt;
    } else if (!strcmp(o, "pid")) {
      dprintf(out_fd, "%d\n", (int)getpid());
    } else if (!strcmp(o, "tty")) {
      struct termios t;
      struct winsize ws = {0, 0, 0, 0};
      int have = 0;
      int src = -1;
      for (int fd = 0; fd < 3; fd++)
        if (isatty(fd)) {
          have |= 1 << fd;
          if (src < 0) src = fd;
        }
      memset(&t, 0, sizeof t);
      if (src >= 0) {
        tcgetattr(src, &t);
        ioctl(src, TIOCGWINSZ, &ws);
      }
      int ctty = open("/dev/tty", O_RDWR);
      int same = 0;
      if (ctty >= 0 && src >= 0) same = tcgetsid(src) == getsid(0) && tcgetpgrp(src) == getpgrp();
      if (ctty >= 0) close(ctty);
      dprintf(out_fd, "tty=%d rows=%d cols=%d canon=%d echo=%d isig=%d opost=%d icrnl=%d leader=%d ctty=%d same=%d\n", have,
              ws.ws_row, ws.ws_col, !!(t.c_lflag & ICANON), !!(t.c_lflag & ECHO), !!(t.c_lflag & ISIG),
              !!(t.c_oflag & OPOST), !!(t.c_iflag & ICRNL), getsid(0) == getpid(), ctty >= 0, same);
    } else if (!strcmp(o, "stty")) {  // stty:echo:0|1
      struct termios t;
      if (!tcgetattr(0, &t)) {
        if (A(2)) t.c_lflag |= ECHO;
        else t.c_lflag &= ~ECHO;
        tcsetattr(0, TCSANOW, &t);
      }
    } else if (!strcmp(o, "repl")) {
      do_repl();
    } else if (!strcmp(o, "--")) {
      free(copy);
      break;
    } else {
      dprintf(2, "vchild: bad op %s\n", ops[i]);
      _exit(94);
    }
    free(copy);
  }
  return 0;
}

int main(int argc, char **argv) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  alarm(150);
  crc_init();
  for (int c = 0; c < 256; c++) TEXT[c] = c % 17 == 0 ? '\n' : 'a' + c % 26;
  g_argc = argc;
  g_argv = argv;
  int n = 0;
  while (n + 1 < argc && strcmp(argv[n + 1], "--")) n++;
  run_ops(n, argv + 1);
  logline("X", "0");
  return 0;
}

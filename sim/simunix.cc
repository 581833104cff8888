// The Unix side of the adapter: terminal, file descriptors, signals, threads, environment and files, simulated in the same scheduler.
// adapter.so is linked with --wrap for every function here, so nothing of the real system is touched.
#include "simunix.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <unistd.h>
using namespace sim;
namespace sim {
Tty g_tty;
Proc *g_adapter;
struct Chan { std::deque<char> q; bool r = true, w = true; };
struct Fd { int kind = 0; /* 0 closed, 1 terminal input, 2 terminal output, 3 pipe read, 4 pipe write */ std::shared_ptr<Chan> c; bool nonblock = false; };
static std::map<int, Fd> g_fds = {{0, {1, nullptr, false}}, {1, {2, nullptr, false}}, {2, {2, nullptr, false}}};
static void (*g_winch)(int);
static bool g_restart;
static std::map<std::string, std::string> g_saved;
static std::string hexs(const std::string &s) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
void ttyOut(int fd, const std::string &s) { log(J().s("ev", "ufd").i("fd", fd).s("hex", hexs(s)).i("now", g_now)); }
// The handler runs wherever the process is; one thread's blocked system call is interrupted.
void ttySignal() {
    log(J().s("ev", "usig").t("handled", g_winch != nullptr).i("now", g_now));
    if (!g_winch || !g_adapter || g_adapter->exited) return;
    int e = errno; g_winch(SIGWINCH); errno = e;
    std::vector<Thread *> c;
    for (auto *t : g_adapter->threads) if (t->st == Thread::Blocked && !strncmp(t->where, "unix:", 5)) c.push_back(t);
    if (!c.empty()) g_tty.interrupted = c[rnd(c.size())];
}
static bool interrupted(bool restartable) {
    if (g_tty.interrupted != self()) return false;
    g_tty.interrupted = nullptr;
    if (restartable && g_restart && !g_tty.noRestart) return false;
    return true;
}
static void enter(const char *) { api("unix"); if (g_tty.yield && rnd(g_tty.yield) == 0) yieldNow(); }
static bool spontaneous() { return g_tty.eintr && rnd(g_tty.eintr) == 0; }   // some other signal
static bool readable(const Fd &f) {
    if (f.kind == 1) return !g_tty.in.empty() || g_tty.eof || g_tty.inErr;
    if (f.kind == 3) return !f.c->q.empty() || !f.c->w;
    return f.kind == 2;
}
static size_t room(int fd) { return g_tty.room[fd] > g_tty.done[fd] ? g_tty.room[fd] - g_tty.done[fd] : 0; }
}

extern "C" {
ssize_t __wrap_read(int fd, void *buf, size_t n) {
    enter("read");
    Fd &f = g_fds[fd];
    if (f.kind != 1 && f.kind != 3) { errno = EBADF; return -1; }
    if (f.kind == 3) {
        if (f.c->q.empty() && f.c->w) { if (f.nonblock) { errno = EAGAIN; return -1; } blockUntil([&] { return readable(f); }, UINT64_MAX, "unix:read"); }
        size_t k = std::min(n, f.c->q.size());
        std::copy(f.c->q.begin(), f.c->q.begin() + k, (char *)buf); f.c->q.erase(f.c->q.begin(), f.c->q.begin() + k);
        return k;
    }
    if (spontaneous()) { errno = EINTR; return -1; }
    while (!readable(f)) {
        blockUntil([&] { return readable(f) || g_tty.interrupted == self(); }, UINT64_MAX, "unix:read");
        if (interrupted(true)) { errno = EINTR; return -1; }
    }
    if (g_tty.in.empty()) { if (g_tty.inErr) { errno = g_tty.inErr; return -1; } return 0; }
    size_t k = std::min(n, g_tty.in.size());
    if (g_tty.maxRead) k = std::min<size_t>(k, 1 + rnd(g_tty.maxRead));
    std::copy(g_tty.in.begin(), g_tty.in.begin() + k, (char *)buf); g_tty.in.erase(g_tty.in.begin(), g_tty.in.begin() + k);
    return k;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    bool mine = self() && self()->proc == g_adapter;
    if (mine) enter("write");
    Fd &f = g_fds[fd];
    if (f.kind != 2 && f.kind != 4) { errno = EBADF; return -1; }
    if (!n) return 0;
    if (f.kind == 4) {
        size_t space = g_tty.pipeCap > f.c->q.size() ? g_tty.pipeCap - f.c->q.size() : 0;
        if (!space) { if (f.nonblock || !mine) { errno = EAGAIN; return -1; } blockUntil([&] { return f.c->q.size() < g_tty.pipeCap; }, UINT64_MAX, "unix:write"); space = 1; }
        size_t k = std::min(n, space);
        f.c->q.insert(f.c->q.end(), (const char *)buf, (const char *)buf + k);
        return k;
    }
    if (spontaneous()) { errno = EINTR; return -1; }
    while (!room(fd) && !g_tty.outErr[fd]) {
        blockUntil([&] { return room(fd) || g_tty.outErr[fd] || g_tty.interrupted == self(); }, UINT64_MAX, "unix:write");
        if (interrupted(true)) { errno = EINTR; return -1; }
    }
    if (!room(fd)) { errno = g_tty.outErr[fd]; log(J().s("ev", "ufail").i("fd", fd).i("err", errno).i("now", g_now)); return -1; }
    size_t k = std::min(n, room(fd));
    if (g_tty.maxWrite) k = std::min<size_t>(k, 1 + rnd(g_tty.maxWrite));
    g_tty.done[fd] += k;
    ttyOut(fd, std::string((const char *)buf, k));
    return k;
}
int __wrap_pipe(int *p) {
    auto c = std::make_shared<Chan>();
    for (int i = 0; i < 2; i++) { int n = 3; while (g_fds.count(n) && g_fds[n].kind) n++; g_fds[n] = {3 + i, c, false}; p[i] = n; }
    return 0;
}
int __wrap_pipe2(int *p, int fl) { __wrap_pipe(p); if (fl & O_NONBLOCK) g_fds[p[0]].nonblock = g_fds[p[1]].nonblock = true; return 0; }
int __wrap_close(int fd) { Fd &f = g_fds[fd]; if (!f.kind) { errno = EBADF; return -1; } if (f.kind == 3) f.c->r = false; if (f.kind == 4) f.c->w = false; f = Fd(); return 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    Fd &f = g_fds[fd]; if (!f.kind) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (f.nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f.nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int __wrap_fcntl64(int fd, int cmd, long arg) { return __wrap_fcntl(fd, cmd, arg); }
static int waitFds(std::function<int(bool)> scan, uint64_t deadline) {   // scan(set): how many are ready
    if (spontaneous()) { errno = EINTR; return -1; }
    if (!scan(false)) {
        blockUntil([&] { return scan(false) || g_tty.interrupted == self(); }, deadline, "unix:select");
        if (!scan(false)) { if (interrupted(false)) { errno = EINTR; return -1; } }
        else if (g_tty.interrupted == self()) { g_tty.interrupted = nullptr; if (rnd(2)) { errno = EINTR; return -1; } }
    }
    return scan(true);
}
int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    enter("select");
    for (int i = 0; r && i < nfds; i++) if (FD_ISSET(i, r) && !g_fds[i].kind) { errno = EBADF; return -1; }
    fd_set in; if (r) in = *r; else FD_ZERO(&in);
    int k = waitFds([&](bool set) {
        int c = 0; if (set && r) FD_ZERO(r);
        for (int i = 0; i < nfds; i++) if (FD_ISSET(i, &in) && readable(g_fds[i])) { c++; if (set) FD_SET(i, r); }
        return c; }, tv ? g_now + tv->tv_sec * 1000 + tv->tv_usec / 1000 : UINT64_MAX);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    return k;
}
int __wrap_pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) { struct timeval tv, *p = nullptr; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; p = &tv; } return __wrap_select(nfds, r, w, e, p); }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) {
    enter("poll");
    return waitFds([&](bool set) {
        int c = 0;
        for (nfds_t i = 0; i < n; i++) { bool y = p[i].fd >= 0 && g_fds[p[i].fd].kind && readable(g_fds[p[i].fd]); if (set) p[i].revents = y ? p[i].events & POLLIN : 0; c += y; }
        return c; }, ms < 0 ? UINT64_MAX : g_now + ms);
}
int __wrap_isatty(int fd) { if (fd >= 0 && fd < 3 && g_tty.tty[fd]) return 1; errno = ENOTTY; return 0; }
int __wrap_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    enter("ioctl");
    if (fd < 0 || fd > 2 || !g_tty.tty[fd] || req != TIOCGWINSZ) { errno = ENOTTY; return -1; }
    auto *w = (struct winsize *)arg; memset(w, 0, sizeof *w);
    w->ws_col = g_tty.cols; w->ws_row = g_tty.rows; w->ws_xpixel = g_tty.cols * 8; w->ws_ypixel = g_tty.rows * 16;
    log(J().s("ev", "ulook").i("c", g_tty.cols).i("r", g_tty.rows).i("now", g_now));
    return 0;
}
static struct termios g_modes[3]; static bool g_modeInit;
static void modes() { if (g_modeInit) return; g_modeInit = true; for (auto &m : g_modes) { memset(&m, 0, sizeof m); m.c_iflag = g_tty.iflag; m.c_oflag = g_tty.oflag; m.c_cflag = g_tty.cflag; m.c_lflag = g_tty.lflag; m.c_cc[VMIN] = 4; m.c_cc[VTIME] = 7; m.c_cc[VINTR] = 3; } }
int __wrap_tcgetattr(int fd, struct termios *t) { modes(); if (fd < 0 || fd > 2 || !g_tty.tty[fd]) { errno = ENOTTY; return -1; } *t = g_modes[g_tty.shared ? 0 : fd]; return 0; }
int __wrap_tcsetattr(int fd, int, const struct termios *t) {
    enter("tcsetattr"); modes();
    if (fd < 0 || fd > 2 || !g_tty.tty[fd]) { errno = ENOTTY; return -1; }
    g_modes[g_tty.shared ? 0 : fd] = *t;
    log(J().s("ev", "umode").i("fd", fd).i("iflag", t->c_iflag).i("oflag", t->c_oflag).i("cflag", t->c_cflag).i("lflag", t->c_lflag).i("vmin", t->c_cc[VMIN]).i("vtime", t->c_cc[VTIME]).i("vintr", t->c_cc[VINTR]).i("now", g_now));
    return 0;
}
int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *old) {
    if (old) memset(old, 0, sizeof *old);
    if (sig == SIGWINCH && a) { g_winch = a->sa_handler == SIG_IGN || a->sa_handler == SIG_DFL ? nullptr : a->sa_handler; g_restart = a->sa_flags & SA_RESTART; }
    return 0;
}
void (*__wrap_signal(int sig, void (*h)(int)))(int) { auto o = g_winch; if (sig == SIGWINCH) { g_winch = h == SIG_IGN || h == SIG_DFL ? nullptr : h; g_restart = true; } return o; }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    Thread *th = spawnThread(curProc(), "unix", [fn, arg] { fn(arg); });
    *t = (pthread_t)(uintptr_t)th;
    if (g_tty.yield && rnd(2)) yieldNow();
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **r) { enter("join"); Thread *th = (Thread *)(uintptr_t)t; blockUntil([th] { return th->st == Thread::Dead; }, UINT64_MAX, "join"); if (r) *r = nullptr; return 0; }
pthread_t __wrap_pthread_self() { return (pthread_t)(uintptr_t)self(); }
char *__wrap_getenv(const char *n) { auto it = g_tty.env.find(n); return it == g_tty.env.end() ? nullptr : (char *)it->second.c_str(); }
char *__wrap_realpath(const char *p, char *out) {
    auto it = g_tty.files.find(p);
    if (it == g_tty.files.end()) { errno = ENOENT; return nullptr; }
    if (!out) return strdup(it->second.c_str());
    strcpy(out, it->second.c_str()); return out;
}
int __wrap_access(const char *p, int mode) { for (auto &f : g_tty.files) if (f.second == p && (!(mode & X_OK) || g_tty.exec.count(p))) return 0; errno = ENOENT; return -1; }
static void say(int fd, const std::string &s) { ttyOut(fd, s); }
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); say(f == stderr ? 2 : 1, b); return n; }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = __wrap_vfprintf(f, fmt, ap); va_end(ap); return n; }
int __wrap_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = __wrap_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int __wrap_puts(const char *s) { say(1, std::string(s) + "\n"); return 1; }
int __wrap_fputs(const char *s, FILE *f) { say(f == stderr ? 2 : 1, s); return 1; }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { say(f == stderr ? 2 : 1, std::string((const char *)p, a * b)); return b; }
int __wrap_putchar(int c) { say(1, std::string(1, (char)c)); return c; }
int __wrap_fputc(int c, FILE *f) { say(f == stderr ? 2 : 1, std::string(1, (char)c)); return c; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
void __wrap_perror(const char *s) { say(2, std::string(s) + ": error\n"); }
int __wrap_fflush(FILE *) { return 0; }

// Cygwin
ssize_t cygwin_conv_path(unsigned, const void *from, void *to, size_t size) {   // /cygdrive/c/x -> c:/x, anything else below C:/cygwin
    std::string p = (const char *)from;
    if (!p.compare(0, 10, "/cygdrive/") && p.size() > 10) p = std::string(1, (char)toupper(p[10])) + ":" + p.substr(11);
    else if (!p.empty() && p[0] == '/') p = "C:/cygwin" + p;
    if (!to || !size) return p.size() + 1;
    if (size < p.size() + 1) { errno = ENOSPC; return -1; }
    strcpy((char *)to, p.c_str()); return 0;
}
int cygwin_conv_to_win32_path(const char *a, char *b) { return cygwin_conv_path(0, a, b, 4096); }
unsigned long cygwin_internal(int what, ...) { if (what == 35) for (auto &kv : g_tty.env) curProc()->environ_[kv.first] = kv.second; return 0; }

// 16-bit wide characters
size_t __wrap_mbstowcs(wchar_t *d, const char *s, size_t n) {
    size_t k = 0;
    for (const unsigned char *p = (const unsigned char *)s; *p;) {
        unsigned c = *p, len = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
        if (!len) { errno = EILSEQ; return (size_t)-1; }
        unsigned v = len == 1 ? c : c & (0x7f >> len);
        for (unsigned i = 1; i < len; i++) { if ((p[i] & 0xc0) != 0x80) { errno = EILSEQ; return (size_t)-1; } v = v << 6 | (p[i] & 0x3f); }
        p += len;
        wchar_t u[2]; unsigned m = 1; u[0] = v;
        if (v > 0xffff) { v -= 0x10000; u[0] = 0xd800 + (v >> 10); u[1] = 0xdc00 + (v & 0x3ff); m = 2; }
        if (d) { if (k + m > n) return k; for (unsigned i = 0; i < m; i++) d[k + i] = u[i]; }
        k += m;
    }
    if (d && k < n) d[k] = 0;
    return k;
}
size_t __wrap_wcstombs(char *d, const wchar_t *s, size_t n) {
    size_t k = 0;
    for (; *s; s++) {
        unsigned v = (unsigned short)*s; char b[4]; unsigned m;
        if (v >= 0xd800 && v < 0xdc00 && (unsigned short)s[1] >= 0xdc00 && (unsigned short)s[1] < 0xe000) { v = 0x10000 + ((v - 0xd800) << 10) + ((unsigned short)s[1] - 0xdc00); s++; }
        if (v < 0x80) { b[0] = v; m = 1; } else if (v < 0x800) { b[0] = 0xc0 | v >> 6; b[1] = 0x80 | (v & 63); m = 2; }
        else if (v < 0x10000) { b[0] = 0xe0 | v >> 12; b[1] = 0x80 | (v >> 6 & 63); b[2] = 0x80 | (v & 63); m = 3; }
        else { b[0] = 0xf0 | v >> 18; b[1] = 0x80 | (v >> 12 & 63); b[2] = 0x80 | (v >> 6 & 63); b[3] = 0x80 | (v & 63); m = 4; }
        if (d) { if (k + m > n) return k; memcpy(d + k, b, m); }
        k += m;
    }
    if (d && k < n) d[k] = 0;
    return k;
}
BOOL SetEnvironmentVariableW(LPCWSTR n, LPCWSTR v) { auto &e = curProc()->environ_; if (!v) e.erase(narrow(n)); else { std::string s(4 * wcslen(v) + 1, 0); s.resize(__wrap_wcstombs(&s[0], v, s.size())); e[narrow(n)] = s; } return TRUE; }
DWORD FormatMessageW(DWORD, LPCVOID, DWORD err, DWORD, LPWSTR out, DWORD, va_list *) {
    if (err == 4242) return 0;                    // no text for this one
    std::wstring s = L"System error text " + widen(std::to_string(err)) + L".\r\n";
    wchar_t *m = (wchar_t *)malloc((s.size() + 1) * 2); memcpy(m, s.c_str(), (s.size() + 1) * 2);
    *(wchar_t **)out = m;
    return s.size();
}
} // extern "C"

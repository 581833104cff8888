#include "sim.h"
#include <unistd.h>
#include <assert.h>

namespace sim {
std::vector<std::string> g_log;
std::vector<std::shared_ptr<Pipe>> g_pipes;
std::map<DWORD, std::shared_ptr<Proc>> g_procs;
uint64_t g_now = 1000, g_rng = 88172645463325252ull;
Thread *g_cur;
int g_preemptEvery = 0;
bool g_deadlock = false;
std::vector<Fault> g_faults;
std::map<std::string, int> g_apiCount;
std::vector<std::string> g_apiLog;
bool g_apiLogOn = false;
std::function<void(const char *)> g_onApi;
Proc *g_faultProc = nullptr;
int g_cancelMode = 0, g_completionMode = 0, g_readChunk = 0;
std::function<bool(Proc *, Proc *, DWORD, const std::wstring &, DWORD &)> g_onCreateProcess;
OsCfg g_os;
std::map<std::string, void *> g_extraProcs;
std::function<void(const char *)> g_onFatal;
static uint64_t g_sinceProgress = 0;
uint64_t g_livelockLimit = 3000000;
TraceSrv g_trace;
bool g_logPipes;
std::map<std::string, std::string> g_env;

// ------------------------------------------------------------------ strings
std::string narrow(const std::wstring &s) {
    std::string r;
    for (wchar_t c : s) { if (c < 0x80) r += (char)c; else { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned)c); r += b; } }
    return r;
}
std::wstring widen(const std::string &s) { return std::wstring(s.begin(), s.end()); }
std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
std::string jwstr(const std::wstring &s) {
    std::string r = "\"";
    for (wchar_t c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned)c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
void log(const J &j) { g_log.push_back(j.str()); }
void logRaw(const std::string &s) { g_log.push_back(s); }
void writeLog(const char *path) {
    FILE *f = fopen(path, "w");
    if (!f) { perror(path); _exit(9); }
    for (auto &l : g_log) { fputs(l.c_str(), f); fputc('\n', f); }
    fclose(f);
}

uint64_t rnd(uint64_t n) {
    g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
    return n ? (g_rng >> 11) % n : 0;
}

// ------------------------------------------------------------------ scheduler
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static std::vector<Thread *> g_threads;
static thread_local Thread *t_self;
Thread *self() { return t_self; }
Proc *curProc() { return t_self ? t_self->proc : nullptr; }

void init(uint64_t seed) {
    g_rng = seed * 6364136223846793005ull + 1442695040888963407ull;
    if (!g_rng) g_rng = 1;
    for (int i = 0; i < 8; i++) rnd(2);
    Thread *t = new Thread();
    t->id = 0; t->name = "driver"; t->proc = newProc("driver.exe", 1).get();
    pthread_cond_init(&t->cv, nullptr);
    t->pt = pthread_self(); t->st = Thread::Running;
    t->proc->threads.push_back(t);
    g_threads.push_back(t);
    t_self = t; g_cur = t;
    pthread_mutex_lock(&M);                       // the baton holder owns M
}

static void switchTo(Thread *t) {
    Thread *me = t_self;
    if (t == me) { me->st = Thread::Running; g_cur = me; return; }
    g_cur = t; t->st = Thread::Running;
    pthread_cond_signal(&t->cv);
    while (g_cur != me) pthread_cond_wait(&me->cv, &M);
}

void fatal(const char *why) {
    log(J().s("ev", "fatal").s("why", why));
    g_deadlock = true;
    if (g_onFatal) g_onFatal(why);
    fprintf(stderr, "sim: fatal: %s\n", why);
    for (auto *t : g_threads) fprintf(stderr, "  thread %d %s st=%d where=%s deadline=%lld\n", t->id, t->name.c_str(), t->st, t->where, (long long)t->deadline);
    _exit(7);
}

static std::vector<std::function<bool()>> g_idleHooks;
static bool pumpDeferred();

static void schedule() {
    for (;;) {
        std::vector<Thread *> c;
        for (auto *t : g_threads) {
            if (t->st == Thread::Dead || t->idleWaiter) continue;
            if (t->st == Thread::Blocked) {
                if (t->ready && t->ready()) { t->st = Thread::Ready; t->timedOut = false; }
                else if (t->deadline <= g_now) { t->st = Thread::Ready; t->timedOut = true; }
            }
            if (t->st == Thread::Ready) c.push_back(t);
        }
        if (!c.empty()) {
            if (++g_sinceProgress > g_livelockLimit) fatal("livelock");
            switchTo(c.size() == 1 ? c[0] : c[rnd(c.size())]);
            return;
        }
        if (pumpDeferred()) continue;
        uint64_t dl = UINT64_MAX;
        Thread *drv = nullptr;
        for (auto *t : g_threads) {
            if (t->st == Thread::Dead) continue;
            if (t->idleWaiter) { drv = t; continue; }
            if (t->deadline < dl) dl = t->deadline;
        }
        if (drv) {
            if (dl <= drv->deadline && dl != UINT64_MAX) { if (dl > g_now) g_sinceProgress = 0; g_now = std::max(g_now, dl); continue; }
            if (drv->deadline != UINT64_MAX) g_now = std::max(g_now, drv->deadline);
            g_sinceProgress = 0;
            drv->st = Thread::Ready;
            switchTo(drv);
            return;
        }
        if (dl == UINT64_MAX) fatal("deadlock");
        if (dl > g_now) g_sinceProgress = 0;
        g_now = std::max(g_now, dl);
    }
}

void blockUntil(std::function<bool()> pred, uint64_t deadline, const char *where) {
    Thread *me = t_self;
    me->ready = pred; me->deadline = deadline; me->where = where; me->st = Thread::Blocked; me->timedOut = false;
    schedule();
    if (me->st == Thread::Dead) for (;;) pthread_cond_wait(&me->cv, &M);
    me->ready = nullptr; me->deadline = UINT64_MAX; me->st = Thread::Running;
}
void yieldNow() {
    Thread *me = t_self;
    me->st = Thread::Ready;
    schedule();
    if (me->st == Thread::Dead) for (;;) pthread_cond_wait(&me->cv, &M);
}
void advance(uint64_t ms) {
    Thread *me = t_self;
    me->idleWaiter = true; me->st = Thread::Blocked; me->deadline = g_now + ms; me->where = "driver";
    schedule();
    me->idleWaiter = false; me->deadline = UINT64_MAX; me->st = Thread::Running;
}
void runIdle() { advance(0); }
bool runUntil(std::function<bool()> pred, uint64_t maxMs) {
    runIdle();
    for (uint64_t i = 0; i < maxMs && !pred(); i++) advance(1);
    return pred();
}

static void *threadMain(void *arg) {
    auto *p = (std::pair<Thread *, std::function<void()>> *)arg;
    Thread *me = p->first;
    t_self = me;
    pthread_mutex_lock(&M);
    while (g_cur != me) pthread_cond_wait(&me->cv, &M);
    p->second();
    // The thread's function returned: the thread is over (the process lives on unless the function ended it).
    me->st = Thread::Dead;
    schedule();
    for (;;) pthread_cond_wait(&me->cv, &M);
    return nullptr;
}
Thread *spawnThread(Proc *p, const std::string &name, std::function<void()> fn) {
    Thread *t = new Thread();
    t->id = (int)g_threads.size(); t->name = name; t->proc = p;
    t->desktop = p->desktop;
    pthread_cond_init(&t->cv, nullptr);
    g_threads.push_back(t);
    p->threads.push_back(t);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
    if (pthread_create(&t->pt, &a, threadMain, new std::pair<Thread *, std::function<void()>>(t, fn))) { perror("pthread_create"); _exit(9); }
    return t;
}

static DWORD g_nextPid = 100;
std::shared_ptr<Proc> newProc(const std::string &name, DWORD pid) {
    auto p = std::make_shared<Proc>();
    p->pid = pid ? pid : (g_nextPid += 4);
    p->name = name;
    p->environ_ = g_env;
    auto ws = std::make_shared<Winsta>(); ws->name = L"WinSta0";
    auto dk = std::make_shared<Desktop>(); dk->name = L"Default"; dk->sta = ws;
    p->station = (HWINSTA)p->add(ws, 0, "std-winsta");
    p->desktop = (HDESK)p->add(dk, 0, "std-desktop");
    p->modulePath = L"C:\\winpty\\" + widen(name);
    g_procs[p->pid] = p;
    return p;
}

void killProc(Proc *p, DWORD code) {
    if (p->exited) return;
    p->exited = true; p->exitCode = code;
    log(J().s("ev", "procExit").i("pid", p->pid).s("name", p->name).i("code", code).i("now", g_now));
    for (auto *t : p->threads) if (t != t_self) t->st = Thread::Dead;
    for (auto &kv : p->handles) if (!kv.second.closed) {
        kv.second.closed = true;
        ObjP o = kv.second.obj;
        if (--o->refs == 0) o->onLastClose(p);
    }
    if (p->console) {
        auto &v = p->console->procs;
        for (size_t i = 0; i < v.size(); i++) if (v[i] == p->pid) { v.erase(v.begin() + i); logProcs(p->console.get()); break; }
    }
}
[[noreturn]] void exitCurrent(DWORD code, const char *how) {
    Thread *me = t_self;
    log(J().s("ev", "exitCall").i("pid", me->proc->pid).s("how", how).i("code", code));
    if (me->id == 0) { if (g_onFatal) g_onFatal(how); fprintf(stderr, "sim: driver thread exits: %s\n", how); _exit(8); }
    killProc(me->proc, code);
    me->st = Thread::Dead;
    schedule();
    for (;;) pthread_cond_wait(&me->cv, &M);
}

// ------------------------------------------------------------------ handles
HANDLE Proc::add(ObjP o, DWORD access, const std::string &what, bool inherit) {
    uintptr_t h = nextHandle; nextHandle += 4;
    handles[h] = HandleEnt{o, access, inherit, false, what};
    o->refs++;
    return (HANDLE)h;
}
HandleEnt *Proc::get(HANDLE h) {
    auto it = handles.find((uintptr_t)h);
    if (it == handles.end() || it->second.closed) return nullptr;
    return &it->second;
}
size_t Proc::openHandles(const char *kind) {
    size_t n = 0;
    for (auto &kv : handles) if (!kv.second.closed && kv.second.what.compare(0, 4, "std-") && (!kind || !strcmp(kind, kv.second.obj->kind()))) n++;
    return n;
}

// ------------------------------------------------------------------ faults
DWORD api(const char *name) {
    if (!t_self) { fprintf(stderr, "sim: API %s from a foreign thread\n", name); _exit(9); }
    if (++g_sinceProgress > g_livelockLimit) fatal("livelock");
    if (g_onApi) g_onApi(name);
    if (g_preemptEvery && t_self->id != 0 && rnd(g_preemptEvery) == 0) yieldNow();
    if (!g_faultProc || t_self->proc == g_faultProc) {
        int n = ++g_apiCount[name];
        if (g_apiLogOn) g_apiLog.push_back(std::string(name) + "#" + std::to_string(n));
        for (auto &f : g_faults) if (f.api == name && (f.nth == n || f.nth < 0)) {
            log(J().s("ev", "fault").s("api", name).i("nth", n).i("err", f.err).i("pid", t_self->proc->pid).i("now", g_now));
            return f.err;
        }
    }
    return 0;
}

// ------------------------------------------------------------------ pipes
std::shared_ptr<Pipe> findPipe(const std::wstring &name) {
    for (auto &p : g_pipes) if (p->name == name && p->server && p->server->open) return p;
    return nullptr;
}
static void finish(const std::shared_ptr<Io> &io, DWORD err, size_t n) {
    io->ov->InternalHigh = n;
    io->ov->Internal = err ? (0xC0000000u | err) : 0;
    if (io->ev) io->ev->set = true;
}
static std::vector<std::weak_ptr<PipeEnd>> g_deferred;

// The wire tap: complete frames (and fragments) that pass over a control pipe, in both directions.
static std::map<std::pair<Pipe *, bool>, std::string> g_tap;
static void tap(Pipe *p, bool toServer, const char *d, size_t n) {
    if (n && g_logPipes && (p->openMode & 3) != 3) { std::string h; char t[4]; for (size_t i = 0; i < n; i++) { snprintf(t, 4, "%02x", (unsigned char)d[i]); h += t; } log(J().s("ev", "pio").w("pipe", p->name).t("up", toServer).s("hex", h).i("now", g_now)); }
    if (!n || (p->openMode & 3) != 3) return;          // control pipes are the ones that go both ways
    std::string &b = g_tap[{p, toServer}];
    b.append(d, n);
    const char *dir = toServer ? "rep" : "req";
    for (;;) {
        uint64_t z = 0;
        if (b.size() >= 8) memcpy(&z, b.data(), 8);
        if (b.size() < 8 || (z >= 8 && z <= (1u << 28) && b.size() < z) || z > (1u << 28)) { if (!b.empty()) log(J().s("ev", "wirePart").w("pipe", p->name).s("dir", dir).i("n", b.size()).t("badSize", b.size() >= 8 && z > (1u << 28)).i("now", g_now)); break; }
        if (z < 8) { log(J().s("ev", "wirePart").w("pipe", p->name).s("dir", dir).i("n", b.size()).t("badSize", true).i("now", g_now)); break; }
        std::string h; char t[4]; for (size_t i = 8; i < z; i++) { snprintf(t, 4, "%02x", (unsigned char)b[i]); h += t; }
        log(J().s("ev", "wire").w("pipe", p->name).s("dir", dir).s("hex", h).i("now", g_now));
        b.erase(0, z);
        if (b.empty()) break;
    }
}

static size_t readSome(PipeEnd *e, char *buf, size_t n) {
    size_t k = std::min(n, e->in.size());
    if (g_readChunk && k > 1) k = 1 + rnd(std::min<size_t>(k, g_readChunk));
    std::copy(e->in.begin(), e->in.begin() + k, buf);
    e->in.erase(e->in.begin(), e->in.begin() + k);
    e->totalIn += k;
    return k;
}
static bool progressWrites(PipeEnd *w) {          // pending writes issued at end w flow into the peer's queue
    PipeEnd *peer = w->peer();
    bool did = false;
    while (!w->writes.empty()) {
        auto io = w->writes.front();
        if (!peer || !peer->open) { w->writes.pop_front(); finish(io, ERROR_BROKEN_PIPE, io->done); did = true; continue; }
        size_t room = peer->in.size() < peer->quota ? peer->quota - peer->in.size() : 0;
        // a pending read of the peer takes bytes directly, whatever the quota
        if (!peer->reads.empty() && peer->in.empty()) room = std::max(room, peer->reads.front()->n);
        size_t k = std::min(room, io->data.size() - io->done);
        if (k) {
            peer->in.insert(peer->in.end(), io->data.begin() + io->done, io->data.begin() + io->done + k);
            io->done += k; w->totalOut += k; did = true;
            tap(w->pipe.get(), !w->isServer, io->data.data() + io->done - k, k);
        }
        if (io->done == io->data.size()) { w->writes.pop_front(); finish(io, 0, io->done); did = true; continue; }
        break;
    }
    return did;
}
static bool progressReads(PipeEnd *r) {
    bool did = false;
    while (!r->reads.empty()) {
        auto io = r->reads.front();
        if (!r->in.empty()) {
            if (r->readHold) break;
            r->reads.pop_front();
            size_t k = readSome(r, io->buf, io->n);
            finish(io, 0, k); did = true;
            continue;
        }
        PipeEnd *peer = r->peer();
        if (peer && !peer->open && peer->writes.empty()) { r->reads.pop_front(); finish(io, ERROR_BROKEN_PIPE, 0); did = true; continue; }
        break;
    }
    return did;
}
void pumpPipe(Pipe *p) {
    for (int guard = 0; guard < 100000; guard++) {
        bool did = false;
        for (auto *e : {p->server.get(), p->client.get()}) if (e) {
            if (e->open) did |= progressWrites(e);
            if (e->open) did |= progressReads(e);
        }
        if (p->client && p->server && !p->server->connects.empty()) {
            auto io = p->server->connects.front(); p->server->connects.pop_front();
            finish(io, 0, 0); did = true;
        }
        if (!did) break;
    }
}
static bool pumpDeferred() {
    bool did = false;
    auto d = g_deferred; g_deferred.clear();
    for (auto &w : d) if (auto e = w.lock()) {
        for (auto *q : {&e->reads, &e->writes, &e->connects})
            for (size_t i = 0; i < q->size();) {
                auto io = (*q)[i];
                if (io->cancelRequested) { q->erase(q->begin() + i); finish(io, ERROR_OPERATION_ABORTED, io->done); did = true; } else i++;
            }
        size_t before = e->totalIn + e->totalOut;
        size_t pend = e->reads.size() + e->writes.size() + e->connects.size();
        pumpPipe(e->pipe.get());
        did |= before != e->totalIn + e->totalOut || pend != e->reads.size() + e->writes.size() + e->connects.size();
    }
    return did;
}
void PipeEnd::onLastClose(Proc *p) {
    open = false;
    for (auto *q : {&reads, &writes, &connects}) {
        for (auto &io : *q) {
            if (p && !p->exited) {
                log(J().s("ev", "closePending").w("pipe", pipe->name));
                finish(io, ERROR_OPERATION_ABORTED, io->done);
            }
        }
        q->clear();
    }
    log(J().s("ev", "pipeClose").w("pipe", pipe->name).t("server", isServer).i("unread", in.size()).i("now", g_now));
    PipeEnd *o = peer();
    if (g_completionMode && !p && o && o->open && rnd(2)) {   // the other end's operations fail one after the other
        progressReads(o);
        g_deferred.push_back(std::static_pointer_cast<PipeEnd>(o->shared_from_this()));
    } else pumpPipe(pipe.get());
}

bool RawEnd::peerGone() { if (!end) return true; PipeEnd *p = end->peer(); return !p || !p->open; }
bool RawEnd::broken() { return !end || (peerGone() && end->in.empty()); }
size_t RawEnd::avail() { return end ? end->in.size() : 0; }
size_t RawEnd::write(const std::string &s) {
    PipeEnd *p = end ? end->peer() : nullptr;
    if (!p || !p->open) return 0;
    size_t room = p->in.size() < p->quota ? p->quota - p->in.size() : 0;
    if (!p->reads.empty() && p->in.empty()) room = std::max(room, p->reads.front()->n);
    size_t k = std::min(room, s.size());
    p->in.insert(p->in.end(), s.begin(), s.begin() + k);
    end->totalOut += k;
    tap(end->pipe.get(), !end->isServer, s.data(), k);
    if (g_completionMode && !p->reads.empty()) g_deferred.push_back(std::static_pointer_cast<PipeEnd>(p->shared_from_this()));
    else pumpPipe(end->pipe.get());
    return k;
}
std::string RawEnd::read(size_t max) {
    std::string r;
    while (r.size() < max) {
        size_t k = std::min(max - r.size(), end->in.size());
        if (!k) break;
        r.append(end->in.begin(), end->in.begin() + k);
        end->in.erase(end->in.begin(), end->in.begin() + k);
        end->totalIn += k;
        pumpPipe(end->pipe.get());
    }
    return r;
}
void RawEnd::close() { if (end && end->open) { end->onLastClose(nullptr); } }

static std::shared_ptr<PipeEnd> connectClient(std::shared_ptr<Pipe> p, DWORD pid) {
    auto e = std::make_shared<PipeEnd>();
    e->pipe = p; e->isServer = false; e->quota = std::max<DWORD>(p->outBuf, 1);
    p->client = e; p->clientPid = pid; p->everConnected = true;
    return e;
}
RawEnd rawConnect(const std::wstring &name, DWORD asPid) {
    RawEnd r;
    auto p = findPipe(name);
    if (!p || p->client) return r;
    r.end = connectClient(p, asPid);
    log(J().s("ev", "pipeConnect").w("pipe", name).i("pid", asPid).i("now", g_now));
    if (!g_completionMode) pumpPipe(p.get()); else g_deferred.push_back(p->server);
    return r;
}
// a server end owned by the driver (for playing libwinpty's control pipe)
} // namespace sim

using namespace sim;
#define ERR(e) do { t_self->lastError = (e); } while (0)
#define FAULT(name, ret) do { DWORD e_ = sim::api(name); if (e_) { ERR(e_); return ret; } } while (0)
template <class T> static T *getObj(HANDLE h) {
    HandleEnt *e = curProc()->get(h);
    T *t = e ? dynamic_cast<T *>(e->obj.get()) : nullptr;
    if (!t) ERR(ERROR_INVALID_HANDLE);
    return t;
}
#define CP curProc()
static const HANDLE kSelfProc = (HANDLE)(intptr_t)-1, kSelfThread = (HANDLE)(intptr_t)-2;

extern "C" {

DWORD GetLastError() { return t_self->lastError; }
void SetLastError(DWORD e) { t_self->lastError = e; }
DWORD GetTickCount() { return (DWORD)g_now; }
ULONGLONG GetTickCount64() { return g_now; }
void GetSystemTimeAsFileTime(LPFILETIME f) { uint64_t v = 131000000000000000ull + g_now * 10000; f->dwLowDateTime = (DWORD)v; f->dwHighDateTime = (DWORD)(v >> 32); }
BOOL QueryPerformanceCounter(LARGE_INTEGER *p) { p->QuadPart = g_now * 1000; return TRUE; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER *p) { p->QuadPart = 1000000; return TRUE; }
DWORD GetCurrentProcessId() { return CP->pid; }
DWORD GetCurrentThreadId() { return 1000 + t_self->id; }
HANDLE GetCurrentProcess() { return kSelfProc; }
HANDLE GetCurrentThread() { return kSelfThread; }
void Sleep(DWORD ms) {
    sim::api("Sleep");
    uint64_t dl = ms == INFINITE ? UINT64_MAX : g_now + ms;
    if (ms == 0) { yieldNow(); return; }
    blockUntil([] { return false; }, dl, "Sleep");
}
DWORD SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
void ExitProcess(UINT c) { exitCurrent(c, "ExitProcess"); }
BOOL TerminateProcess(HANDLE h, UINT c) {
    FAULT("TerminateProcess", FALSE);
    if (h == kSelfProc) exitCurrent(c, "TerminateProcess");
    Proc *p = getObj<Proc>(h); if (!p) return FALSE;
    log(J().s("ev", "terminate").i("pid", p->pid));
    killProc(p, c);
    return TRUE;
}
BOOL GetExitCodeProcess(HANDLE h, LPDWORD c) { FAULT("GetExitCodeProcess", FALSE); Proc *p = getObj<Proc>(h); if (!p) return FALSE; *c = p->exited ? p->exitCode : STILL_ACTIVE; return TRUE; }
DWORD GetProcessId(HANDLE h) { Proc *p = h == kSelfProc ? CP : getObj<Proc>(h); return p ? p->pid : 0; }

void InitializeCriticalSection(LPCRITICAL_SECTION c) { memset(c, 0, sizeof *c); c->LockCount = -1; }
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { InitializeCriticalSection(c); return TRUE; }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { if (c->RecursionCount) log(J().s("ev", "csDeletedHeld")); memset(c, 0xdd, sizeof *c); }
void EnterCriticalSection(LPCRITICAL_SECTION c) {
    sim::api("EnterCriticalSection");
    HANDLE me = (HANDLE)(uintptr_t)(1000 + t_self->id);
    if (c->OwningThread == me) { c->RecursionCount++; return; }
    while (c->OwningThread) blockUntil([c] { return c->OwningThread == nullptr; }, UINT64_MAX, "EnterCriticalSection");
    c->OwningThread = me; c->RecursionCount = 1;
}
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) {
    HANDLE me = (HANDLE)(uintptr_t)(1000 + t_self->id);
    if (c->OwningThread == me) { c->RecursionCount++; return TRUE; }
    if (c->OwningThread) return FALSE;
    c->OwningThread = me; c->RecursionCount = 1; return TRUE;
}
void LeaveCriticalSection(LPCRITICAL_SECTION c) {
    HANDLE me = (HANDLE)(uintptr_t)(1000 + t_self->id);
    if (c->OwningThread != me) { log(J().s("ev", "csBadLeave")); return; }
    if (--c->RecursionCount == 0) c->OwningThread = nullptr;
}
void AcquireSRWLockExclusive(PSRWLOCK l) { while (l->Ptr) blockUntil([l] { return l->Ptr == nullptr; }, UINT64_MAX, "SRW"); l->Ptr = (void *)1; }
void ReleaseSRWLockExclusive(PSRWLOCK l) { l->Ptr = nullptr; }
void InitializeSRWLock(PSRWLOCK l) { l->Ptr = nullptr; }

HANDLE CreateEventW(LPSECURITY_ATTRIBUTES, WINBOOL manual, WINBOOL init, LPCWSTR) {
    FAULT("CreateEventW", nullptr);
    return CP->add(std::make_shared<Event>(manual, init), 0, "event");
}
HANDLE CreateEventA(LPSECURITY_ATTRIBUTES s, WINBOOL m, WINBOOL i, LPCSTR) { return CreateEventW(s, m, i, nullptr); }
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, WINBOOL, LPCWSTR) { FAULT("CreateMutexW", nullptr); return CP->add(std::make_shared<MutexObj>(), 0, "mutex"); }
BOOL ReleaseMutex(HANDLE) { return TRUE; }
BOOL SetEvent(HANDLE h) { FAULT("SetEvent", FALSE); auto *e = getObj<Event>(h); if (!e) return FALSE; e->set = true; return TRUE; }
BOOL ResetEvent(HANDLE h) { FAULT("ResetEvent", FALSE); auto *e = getObj<Event>(h); if (!e) return FALSE; e->set = false; return TRUE; }

static bool isTraceHandle(HANDLE h) { return (uintptr_t)h >= 0x70000000 && (uintptr_t)h < 0x78000000; }
static void traced(const char *op, HANDLE h, bool ok, DWORD err) {
    log(J().s("ev", "dbg").s("op", op).i("h", (long long)(uintptr_t)h).t("ok", ok).i("err", err).i("pid", CP->pid).i("t", t_self->id).i("now", g_now));
    ERR(ok ? 1000 + g_trace.calls++ % 7 : err);
}
BOOL CloseHandle(HANDLE h) {
    if (isTraceHandle(h)) { bool ok = g_trace.open.erase((uintptr_t)h); traced("close", h, ok, ERROR_INVALID_HANDLE); return ok; }
    FAULT("CloseHandle", FALSE);
    if (h == kSelfProc || h == kSelfThread) return TRUE;
    HandleEnt *e = CP->get(h);
    if (!e) {
        bool dbl = CP->handles.count((uintptr_t)h) != 0;
        CP->doubleClose++;
        log(J().s("ev", "badClose").i("pid", CP->pid).t("double", dbl));
        ERR(ERROR_INVALID_HANDLE); return FALSE;
    }
    if (!strcmp(e->obj->kind(), "winsta") || !strcmp(e->obj->kind(), "desktop")) { log(J().s("ev", "badClose").i("pid", CP->pid).t("double", false)); }
    e->closed = true;
    ObjP o = e->obj;
    if (--o->refs == 0) o->onLastClose(CP);
    return TRUE;
}
BOOL GetHandleInformation(HANDLE h, LPDWORD f) { HandleEnt *e = CP->get(h); if (!e) { ERR(ERROR_INVALID_HANDLE); return FALSE; } *f = e->inherit ? HANDLE_FLAG_INHERIT : 0; return TRUE; }
BOOL SetHandleInformation(HANDLE h, DWORD m, DWORD f) { HandleEnt *e = CP->get(h); if (!e) { ERR(ERROR_INVALID_HANDLE); return FALSE; } if (m & HANDLE_FLAG_INHERIT) e->inherit = f & HANDLE_FLAG_INHERIT; return TRUE; }
BOOL DuplicateHandle(HANDLE sp, HANDLE sh, HANDLE tp, LPHANDLE out, DWORD, WINBOOL inherit, DWORD opt) {
    DWORD fe = sim::api("DuplicateHandle");
    Proc *src = sp == kSelfProc ? CP : getObj<Proc>(sp);
    Proc *dst = tp == kSelfProc ? CP : (tp ? getObj<Proc>(tp) : nullptr);
    if (!src) { ERR(ERROR_INVALID_HANDLE); return FALSE; }
    ObjP o; HandleEnt *e = nullptr; std::string what = "dup";
    if (sh == kSelfProc) o = src->shared_from_this();
    else { e = src->exited ? nullptr : src->get(sh); if (e) { o = e->obj; what = "dup-" + std::string(o->kind()); } }
    log(J().s("ev", "dup").i("from", src->pid).i("by", CP->pid).t("closeSource", opt & DUPLICATE_CLOSE_SOURCE).t("valid", (bool)o).i("err", fe).s("kind", o ? o->kind() : "").i("h", (long long)(intptr_t)sh)
        .i("target", o && dynamic_cast<Proc *>(o.get()) ? dynamic_cast<Proc *>(o.get())->pid : 0));
    if (e && (opt & DUPLICATE_CLOSE_SOURCE)) {      // closes the source even when the call fails
        e->closed = true;
        if (--o->refs == 0 && (fe || !dst)) o->onLastClose(src);
    }
    if (fe) { ERR(fe); return FALSE; }
    if (!o) { ERR(ERROR_INVALID_HANDLE); return FALSE; }
    if (dst && out) *out = dst->add(o, 0, what, inherit);
    return TRUE;
}

static DWORD waitImpl(DWORD n, const HANDLE *h, bool all, DWORD ms, const char *name) {
    if (g_conDirty && CP->pid != 1) { g_conDirty = false; log(J().s("ev", "con").s("f", "wait").s("buf", "").i("pid", CP->pid).raw("a", "{}")); }
    DWORD fe = sim::api(name);
    if (fe) { ERR(fe); return WAIT_FAILED; }
    std::vector<ObjP> objs;
    for (DWORD i = 0; i < n; i++) {
        if (h[i] == kSelfProc) { objs.push_back(CP->shared_from_this()); continue; }
        HandleEnt *e = CP->get(h[i]);
        if (!e) { log(J().s("ev", "badWait").i("pid", CP->pid)); ERR(ERROR_INVALID_HANDLE); return WAIT_FAILED; }
        objs.push_back(e->obj);
    }
    if (n > 64 || n == 0) { ERR(ERROR_INVALID_PARAMETER); return WAIT_FAILED; }
    auto pick = [&objs, all]() -> int {
        int first = -1; size_t k = 0;
        for (size_t i = 0; i < objs.size(); i++) if (objs[i]->signaled()) { if (first < 0) first = (int)i; k++; }
        if (all) return k == objs.size() ? 0 : -1;
        return first;
    };
    if (pick() < 0) {
        if (ms == 0) return WAIT_TIMEOUT;
        uint64_t dl = ms == INFINITE ? UINT64_MAX : g_now + ms;
        blockUntil([&] { return pick() >= 0; }, dl, name);
        if (pick() < 0) return WAIT_TIMEOUT;
    }
    int i = pick();
    if (all) for (auto &o : objs) o->consumed(); else objs[i]->consumed();
    return WAIT_OBJECT_0 + i;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { return waitImpl(1, &h, false, ms, "WaitForSingleObject"); }
DWORD WaitForMultipleObjects(DWORD n, const HANDLE *h, WINBOOL all, DWORD ms) { return waitImpl(n, h, all, ms, "WaitForMultipleObjects"); }
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, WINBOOL) { return waitImpl(1, &h, false, ms, "WaitForSingleObject"); }
DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *h, WINBOOL all, DWORD ms, WINBOOL) { return waitImpl(n, h, all, ms, "WaitForMultipleObjects"); }

// ------------------------------------------------------------------ pipe APIs
HANDLE CreateNamedPipeW(LPCWSTR name, DWORD openMode, DWORD pipeMode, DWORD maxInst, DWORD outB, DWORD inB, DWORD, LPSECURITY_ATTRIBUTES sa) {
    DWORD fe = sim::api("CreateNamedPipeW");
    std::wstring nm = name;
    std::string sd = sa && sa->lpSecurityDescriptor ? describeSd(sa->lpSecurityDescriptor) : "default";
    bool exists = findPipe(nm) != nullptr;
    bool first = openMode & FILE_FLAG_FIRST_PIPE_INSTANCE;
    if (!fe && exists && first) fe = ERROR_ACCESS_DENIED;
    if (!fe && exists) fe = ERROR_PIPE_BUSY;
    log(J().s("ev", "pipeCreate").i("pid", CP->pid).w("pipe", nm).t("first", first).t("overlapped", openMode & FILE_FLAG_OVERLAPPED)
        .s("dir", (openMode & 3) == 3 ? "duplex" : (openMode & 3) == 1 ? "in" : "out").t("rejectRemote", pipeMode & 8)
        .i("maxInst", maxInst).s("sd", sd).t("inheritable", sa && sa->bInheritHandle).i("err", fe));
    if (fe) { ERR(fe); return INVALID_HANDLE_VALUE; }
    auto p = std::make_shared<Pipe>();
    p->name = nm; p->openMode = openMode; p->pipeMode = pipeMode; p->maxInst = maxInst; p->outBuf = outB; p->inBuf = inB; p->sd = sd; p->serverPid = CP->pid;
    auto e = std::make_shared<PipeEnd>();
    e->pipe = p; e->isServer = true; e->owner = CP; e->quota = std::max<DWORD>(inB, 1); e->overlapped = openMode & FILE_FLAG_OVERLAPPED;
    p->server = e;
    g_pipes.push_back(p);
    return CP->add(e, 0, "pipe-server");
}
HANDLE CreateNamedPipeA(LPCSTR n, DWORD a, DWORD b, DWORD c, DWORD d, DWORD e, DWORD f, LPSECURITY_ATTRIBUTES s) { return CreateNamedPipeW(widen(n).c_str(), a, b, c, d, e, f, s); }
BOOL ConnectNamedPipe(HANDLE h, LPOVERLAPPED ov) {
    FAULT("ConnectNamedPipe", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    if (e->pipe->client) { ERR(e->pipe->client->open ? ERROR_PIPE_CONNECTED : ERROR_NO_DATA); return FALSE; }
    if (!ov) { blockUntil([e] { return (bool)e->pipe->client; }, UINT64_MAX, "ConnectNamedPipe"); return TRUE; }
    auto io = std::make_shared<Io>();
    io->ov = ov; io->buf = nullptr; io->isConnect = true; io->thr = t_self; io->end = e;
    if (ov->hEvent) { auto *ev = getObj<Event>((HANDLE)((uintptr_t)ov->hEvent & ~(uintptr_t)1)); if (!ev) return FALSE; ev->set = false; io->ev = std::static_pointer_cast<Event>(ev->shared_from_this()); }
    ov->Internal = 0x103; ov->InternalHigh = 0;
    e->connects.push_back(io);
    ERR(ERROR_IO_PENDING);
    return FALSE;
}
BOOL DisconnectNamedPipe(HANDLE h) {
    FAULT("DisconnectNamedPipe", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    if (e->pipe->client) { e->pipe->client->in.clear(); e->open = false; pumpPipe(e->pipe.get()); e->open = true; }
    return TRUE;
}
// The trace server: a pipe of its own that takes no part in faults, schedules or handle numbers, and leaves the last error in any state.
static bool isTracePipe(LPCWSTR n) { return g_trace.mode != TraceSrv::None && !_wcsicmp(n, L"\\\\.\\pipe\\DebugServer"); }
static HANDLE traceOpen() {
    if (g_trace.mode == TraceSrv::Absent) { traced("open", nullptr, false, ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    if (g_trace.mode == TraceSrv::Denied) { traced("open", nullptr, false, ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    if ((g_trace.mode == TraceSrv::Busy || g_trace.mode == TraceSrv::Leaves) && g_trace.left-- > 0) { traced("open", nullptr, false, ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    g_trace.left = g_trace.n;
    HANDLE h = (HANDLE)(uintptr_t)(0x70000000 + 4 * g_trace.next++);
    g_trace.open.insert((uintptr_t)h);
    traced("open", h, true, 0);
    return h;
}
BOOL WaitNamedPipeW(LPCWSTR name, DWORD) {
    if (isTracePipe(name)) {
        if (g_trace.mode == TraceSrv::Leaves || g_trace.mode == TraceSrv::Absent) { g_trace.left = g_trace.n; traced("wait", nullptr, false, ERROR_FILE_NOT_FOUND); return FALSE; }
        for (uint64_t i = 0; i < g_trace.delay; i++) yieldNow();
        traced("wait", nullptr, true, 0);
        return TRUE;
    }
    FAULT("WaitNamedPipeW", FALSE); ERR(ERROR_FILE_NOT_FOUND); return FALSE;
}
BOOL SetNamedPipeHandleState(HANDLE h, LPDWORD, LPDWORD, LPDWORD) { if (isTraceHandle(h)) { bool ok = g_trace.mode != TraceSrv::Broken; traced("mode", h, ok, ERROR_PIPE_NOT_CONNECTED); return ok; } FAULT("SetNamedPipeHandleState", FALSE); return TRUE; }
BOOL GetNamedPipeHandleStateW(HANDLE, LPDWORD, LPDWORD, LPDWORD, LPDWORD, LPWSTR, DWORD) { return TRUE; }
BOOL TransactNamedPipe(HANDLE h, LPVOID msg, DWORD len, LPVOID, DWORD, LPDWORD n, LPOVERLAPPED) {
    if (isTraceHandle(h)) {
        for (uint64_t i = 0; i < g_trace.delay; i++) yieldNow();
        bool ok = g_trace.mode != TraceSrv::Broken;
        volatile char c = 0; for (DWORD i = 0; i < len; i++) c ^= ((char *)msg)[i];
        traced("send", h, ok, ERROR_BROKEN_PIPE); if (ok) *n = 2; return ok;
    }
    FAULT("TransactNamedPipe", FALSE); *n = 2; return TRUE; }
BOOL FlushFileBuffers(HANDLE) { return TRUE; }
BOOL PeekNamedPipe(HANDLE h, LPVOID b, DWORD n, LPDWORD rd, LPDWORD av, LPDWORD left) {
    FAULT("PeekNamedPipe", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    size_t k = std::min<size_t>(n, e->in.size());
    if (b) std::copy(e->in.begin(), e->in.begin() + k, (char *)b);
    if (rd) *rd = k; if (av) *av = e->in.size(); if (left) *left = 0;
    if (e->in.empty() && e->peer() && !e->peer()->open) { ERR(ERROR_BROKEN_PIPE); return FALSE; }
    return TRUE;
}

static bool startIo(LPOVERLAPPED ov, std::shared_ptr<Io> io) {
    if (ov->hEvent) {
        auto *ev = getObj<Event>((HANDLE)((uintptr_t)ov->hEvent & ~(uintptr_t)1));
        if (!ev) return false;
        ev->set = false;
        io->ev = std::static_pointer_cast<Event>(ev->shared_from_this());
    }
    ov->Internal = 0x103; ov->InternalHigh = 0;
    return true;
}
BOOL ReadFile(HANDLE h, LPVOID buf, DWORD n, LPDWORD actual, LPOVERLAPPED ov) {
    FAULT("ReadFile", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    if (actual) *actual = 0;
    PipeEnd *peer = e->peer();
    if (!peer) { ERR(ERROR_PIPE_LISTENING); return FALSE; }
    if (e->in.empty() && !peer->open) { ERR(ERROR_BROKEN_PIPE); return FALSE; }
    auto io = std::make_shared<Io>();
    OVERLAPPED tmp = {};
    bool sync = !ov || !e->overlapped;
    io->ov = ov ? ov : &tmp; io->buf = (char *)buf; io->n = n; io->isRead = true; io->thr = t_self; io->end = e;
    if (!startIo(io->ov, io)) return FALSE;
    e->reads.push_back(io);
    if (g_completionMode && !sync) g_deferred.push_back(std::static_pointer_cast<PipeEnd>(e->shared_from_this()));
    else pumpPipe(e->pipe.get());
    if (sync && io->ov->Internal == 0x103) blockUntil([&] { return io->ov->Internal != 0x103; }, UINT64_MAX, "ReadFile");
    if (io->ov->Internal == 0x103) { ERR(ERROR_IO_PENDING); return FALSE; }
    if (io->ov->Internal) { ERR(io->ov->Internal & 0xffff); return FALSE; }
    if (actual) *actual = io->ov->InternalHigh;
    return TRUE;
}
BOOL WriteFile(HANDLE h, LPCVOID buf, DWORD n, LPDWORD actual, LPOVERLAPPED ov) {
    FAULT("WriteFile", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    if (actual) *actual = 0;
    PipeEnd *peer = e->peer();
    if (!peer) { ERR(ERROR_PIPE_LISTENING); return FALSE; }
    if (!peer->open) { ERR(ERROR_NO_DATA); return FALSE; }
    auto io = std::make_shared<Io>();
    OVERLAPPED tmp = {};
    bool sync = !ov || !e->overlapped;
    io->ov = ov ? ov : &tmp; io->buf = nullptr; io->n = n; io->thr = t_self; io->end = e;
    io->data.assign((const char *)buf, (const char *)buf + n);
    if (!startIo(io->ov, io)) return FALSE;
    e->writes.push_back(io);
    if (g_completionMode && !sync) g_deferred.push_back(std::static_pointer_cast<PipeEnd>(e->shared_from_this()));
    else pumpPipe(e->pipe.get());
    if (sync && io->ov->Internal == 0x103) blockUntil([&] { return io->ov->Internal != 0x103; }, UINT64_MAX, "WriteFile");
    if (io->ov->Internal == 0x103) { ERR(ERROR_IO_PENDING); return FALSE; }
    if (io->ov->Internal) { ERR(io->ov->Internal & 0xffff); return FALSE; }
    if (actual) *actual = io->ov->InternalHigh;
    return TRUE;
}
static void cancelEnd(PipeEnd *e, Thread *only, LPOVERLAPPED ov) {
    for (auto *q : {&e->reads, &e->writes, &e->connects})
        for (size_t i = 0; i < q->size();) {
            auto io = (*q)[i];
            if ((only && io->thr != only) || (ov && io->ov != ov)) { i++; continue; }
            if (g_cancelMode == 1) { io->cancelRequested = true; g_deferred.push_back(std::static_pointer_cast<PipeEnd>(e->shared_from_this())); i++; continue; }
            q->erase(q->begin() + i);
            finish(io, ERROR_OPERATION_ABORTED, io->done);
        }
}
BOOL CancelIo(HANDLE h) {
    FAULT("CancelIo", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    cancelEnd(e, t_self, nullptr);
    return TRUE;
}
BOOL CancelIoEx(HANDLE h, LPOVERLAPPED ov) {
    FAULT("CancelIoEx", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    cancelEnd(e, nullptr, ov);
    return TRUE;
}
BOOL GetOverlappedResult(HANDLE h, LPOVERLAPPED ov, LPDWORD n, WINBOOL wait) {
    // (not a fault point: a fault here would hide whether the operation is over)
    sim::api("GetOverlappedResult");
    if (!CP->get(h)) { ERR(ERROR_INVALID_HANDLE); return FALSE; }
    if (ov->Internal == 0x103) {
        if (!wait) { ERR(ERROR_IO_INCOMPLETE); return FALSE; }
        auto *e = getObj<PipeEnd>(h);
        if (e) for (auto *q : {&e->reads, &e->writes, &e->connects})
            for (size_t i = 0; i < q->size(); i++) if ((*q)[i]->ov == ov && (*q)[i]->cancelRequested) {
                auto io = (*q)[i]; q->erase(q->begin() + i); finish(io, ERROR_OPERATION_ABORTED, io->done); break;
            }
        if (ov->Internal == 0x103) blockUntil([ov] { return ov->Internal != 0x103; }, UINT64_MAX, "GetOverlappedResult");
    }
    *n = (DWORD)ov->InternalHigh;
    if (ov->Internal) { ERR(ov->Internal & 0xffff); return FALSE; }
    return TRUE;
}

HANDLE CreateFileW(LPCWSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES sa, DWORD disp, DWORD flags, HANDLE) {
    if (isTracePipe(name)) return traceOpen();
    DWORD fe = sim::api("CreateFileW");
    std::wstring nm = name;
    if (!_wcsicmp(name, L"CONOUT$") || !_wcsicmp(name, L"CONIN$")) {
        Console *c = consoleOf(CP);
        if (!fe && !c) fe = ERROR_INVALID_HANDLE;
        if (fe) { ERR(fe); return INVALID_HANDLE_VALUE; }
        if (!_wcsicmp(name, L"CONIN$")) return CP->add(c->conin, access, "conin", sa && sa->bInheritHandle);
        return CP->add(c->active, access, "conout", sa && sa->bInheritHandle);
    }
    auto p = findPipe(nm);
    if (!fe && !p) fe = ERROR_FILE_NOT_FOUND;
    if (!fe && p->client) fe = ERROR_PIPE_BUSY;
    log(J().s("ev", "pipeOpen").i("pid", CP->pid).w("pipe", nm).i("access", access >> 28).t("sqos", flags & SECURITY_SQOS_PRESENT)
        .i("level", (flags >> 16) & 3).t("overlapped", flags & FILE_FLAG_OVERLAPPED).i("err", fe));
    if (fe) { ERR(fe); return INVALID_HANDLE_VALUE; }
    auto e = connectClient(p, CP->pid);
    e->owner = CP; e->overlapped = flags & FILE_FLAG_OVERLAPPED; e->sqos = flags;
    if (!g_completionMode) pumpPipe(p.get()); else g_deferred.push_back(p->server);
    return CP->add(e, access, "pipe-client");
}
HANDLE CreateFileA(LPCSTR n, DWORD a, DWORD s, LPSECURITY_ATTRIBUTES sa, DWORD d, DWORD f, HANDLE t) { return CreateFileW(widen(n).c_str(), a, s, sa, d, f, t); }
DWORD GetFileAttributesW(LPCWSTR name) {
    DWORD fe = sim::api("GetFileAttributesW");
    if (fe) { ERR(fe); return 0xffffffff; }
    std::string n = narrow(name);
    if (n.find("winpty-agent.exe") != std::string::npos) return FILE_ATTRIBUTE_ARCHIVE;
    ERR(ERROR_FILE_NOT_FOUND); return 0xffffffff;
}
BOOL GetNamedPipeClientProcessId(HANDLE h, PULONG pid) {
    FAULT("GetNamedPipeClientProcessId", FALSE);
    auto *e = getObj<PipeEnd>(h); if (!e) return FALSE;
    *pid = e->pipe->clientPid; return TRUE;
}

// ------------------------------------------------------------------ processes
BOOL CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, WINBOOL inherit, DWORD flags, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi) {
    DWORD fe = sim::api("CreateProcessW");
    J j;
    j.s("ev", "createProcess").i("by", CP->pid).t("hasApp", app).w("app", app ? app : L"").t("hasCmd", cmd).w("cmd", cmd ? cmd : L"").t("hasCwd", cwd).w("cwd", cwd ? cwd : L"")
        .t("inherit", inherit).t("newConsole", flags & CREATE_NEW_CONSOLE).t("detached", flags & DETACHED_PROCESS).t("unicodeEnv", flags & CREATE_UNICODE_ENVIRONMENT)
        .t("hasDesktop", si->lpDesktop).w("desktop", si->lpDesktop ? si->lpDesktop : L"").t("stdHandles", si->dwFlags & STARTF_USESTDHANDLES)
        .t("hide", (si->dwFlags & STARTF_USESHOWWINDOW) && si->wShowWindow == SW_HIDE);
    std::wstring e;
    if (env) { const wchar_t *p = (const wchar_t *)env; while (*p) { size_t n = wcslen(p); e.append(p, n + 1); p += n + 1; } }
    j.t("hasEnv", env).w("env", e);
    std::string what = narrow(app ? app : L"") + " " + narrow(cmd ? cmd : L"");
    bool agent = what.find("winpty-agent.exe") != std::string::npos;
    auto c = std::make_shared<Proc>();
    if (!fe) {
        auto np = newProc(agent ? "winpty-agent.exe" : "child.exe");
        c = np;
        c->isAgent = agent;
        if (g_logPipes) { J v; v.s("ev", "uenv"); for (auto &kv : CP->environ_) v.w(("E_" + kv.first).c_str(), widen(kv.second)); log(v); }
        c->app = app ? app : L""; c->cmdline = cmd ? cmd : L""; c->cwd = cwd ? cwd : L""; c->hasEnv = env; c->env = e;
        c->desktopName = si->lpDesktop ? si->lpDesktop : L"";
        if (flags & CREATE_NEW_CONSOLE) c->console = newConsole();
        else if (!(flags & DETACHED_PROCESS)) c->console = CP->console;
        if (c->console) {
            c->console->procs.insert(c->console->procs.begin(), c->pid); logProcs(c->console.get());
            c->stdIn = c->add(c->console->conin, 0, "std-in", true);
            c->stdOut = c->add(c->console->active, 0, "std-out", true);
            c->stdErr = c->add(c->console->active, 0, "std-err", true);
        }
        if (si->dwFlags & STARTF_USESTDHANDLES) {
            auto inh = [&](HANDLE h) -> HANDLE { auto *he = CP->get(h); return he && he->inherit && inherit ? c->add(he->obj, 0, "std-x", true) : nullptr; };
            c->stdIn = inh(si->hStdInput); c->stdOut = inh(si->hStdOutput); c->stdErr = inh(si->hStdError);
        }
        auto lab = [&](HANDLE h) -> std::string { auto *he = c->get(h); if (!he) return "none"; if (auto *b = dynamic_cast<ScreenBuf *>(he->obj.get())) return b->label; return he->obj->kind(); };
        j.s("sin", lab(c->stdIn)).s("sout", lab(c->stdOut)).s("serr", lab(c->stdErr));
        if (g_onCreateProcess && !g_onCreateProcess(CP, c.get(), flags, c->desktopName, fe)) {
            if (c->console) { auto &v = c->console->procs; for (size_t i = 0; i < v.size(); i++) if (v[i] == c->pid) { v.erase(v.begin() + i); logProcs(c->console.get()); break; } }
            c->exited = true; g_procs.erase(c->pid);
        }
    }
    j.i("pid", fe ? 0 : c->pid).i("err", fe);
    log(j);
    if (fe) { ERR(fe); return FALSE; }
    auto t = std::make_shared<ThreadObj>(); t->p = c.get();
    pi->hProcess = CP->add(c, 0, "process"); pi->hThread = CP->add(t, 0, "thread");
    pi->dwProcessId = c->pid; pi->dwThreadId = c->pid + 1;
    return TRUE;
}
LPWSTR GetCommandLineW() { return (LPWSTR)CP->cmdline.c_str(); }
LPWSTR *CommandLineToArgvW(LPCWSTR s, int *argc) {
    std::vector<std::wstring> v;
    const wchar_t *p = s;
    bool first = true;
    while (*p) {
        while (*p == ' ' || *p == '\t') p++;
        if (!*p) break;
        std::wstring a; bool q = false;
        while (*p && (q || (*p != ' ' && *p != '\t'))) {
            if (*p == '\\' && !first) {
                size_t n = 0; while (*p == '\\') { n++; p++; }
                if (*p == '"') { a.append(n / 2, L'\\'); if (n & 1) { a += L'"'; p++; } }
                else a.append(n, L'\\');
            } else if (*p == '"') { q = !q; p++; }
            else a += *p++;
        }
        v.push_back(a); first = false;
    }
    *argc = (int)v.size();
    LPWSTR *r = new LPWSTR[v.size() + 1];
    for (size_t i = 0; i < v.size(); i++) { r[i] = new wchar_t[v[i].size() + 1]; memcpy(r[i], v[i].c_str(), (v[i].size() + 1) * sizeof(wchar_t)); }
    r[v.size()] = nullptr;
    return r;
}
static DWORD envGet(const char *n, std::string &out) { auto it = CP->environ_.find(n); if (it == CP->environ_.end()) { ERR(ERROR_ENVVAR_NOT_FOUND); return 0; } out = it->second; return 1; }
DWORD GetEnvironmentVariableA(LPCSTR n, LPSTR b, DWORD sz) {
    std::string v; if (!envGet(n, v)) return 0;
    if (v.size() + 1 > sz) return v.size() + 1;
    memcpy(b, v.c_str(), v.size() + 1); return v.size();
}
DWORD GetEnvironmentVariableW(LPCWSTR n, LPWSTR b, DWORD sz) {
    std::string v; if (!envGet(narrow(n).c_str(), v)) return 0;
    if (v.size() + 1 > sz) return v.size() + 1;
    for (size_t i = 0; i <= v.size(); i++) b[i] = (unsigned char)v.c_str()[i];
    return v.size();
}
DWORD GetModuleFileNameA(HMODULE, LPSTR b, DWORD n) { std::string s = narrow(CP->modulePath); snprintf(b, n, "%s", s.c_str()); return std::min<DWORD>(s.size(), n); }
DWORD GetModuleFileNameW(HMODULE, LPWSTR b, DWORD n) {
    FAULT("GetModuleFileNameW", 0);
    auto &s = CP->modulePath; DWORD k = std::min<DWORD>(s.size(), n - 1);
    memcpy(b, s.c_str(), k * 2); b[k] = 0; return k;
}
BOOL GetModuleHandleExW(DWORD, LPCWSTR, HMODULE *m) { FAULT("GetModuleHandleExW", FALSE); *m = (HMODULE)0x10000; return TRUE; }
HMODULE GetModuleHandleW(LPCWSTR) { return (HMODULE)0x10000; }
static std::vector<std::string> g_modules;
HMODULE LoadLibraryW(LPCWSTR n) {
    FAULT("LoadLibraryW", nullptr);
    std::string s = narrow(n); size_t p = s.find_last_of("\\/"); if (p != std::string::npos) s = s.substr(p + 1);
    for (auto &c : s) c = tolower(c);
    for (size_t i = 0; i < g_modules.size(); i++) if (g_modules[i] == s) return (HMODULE)(0x20000 + i * 16);
    g_modules.push_back(s);
    return (HMODULE)(0x20000 + (g_modules.size() - 1) * 16);
}
HMODULE LoadLibraryExW(LPCWSTR n, HANDLE, DWORD) { return LoadLibraryW(n); }
BOOL FreeLibrary(HMODULE) { return TRUE; }
FARPROC GetProcAddress(HMODULE m, LPCSTR n) {
    size_t i = ((uintptr_t)m - 0x20000) / 16;
    return sim::getProc(i < g_modules.size() ? g_modules[i] : "", n);
}
UINT GetSystemDirectoryW(LPWSTR b, UINT n) { const wchar_t *s = L"C:\\Windows\\system32"; UINT k = wcslen(s); if (n <= k) return k + 1; memcpy(b, s, (k + 1) * 2); return k; }
BOOL GetVersionExW(LPOSVERSIONINFOW v) {
    v->dwMajorVersion = g_os.major; v->dwMinorVersion = g_os.minor; v->dwBuildNumber = g_os.build; v->dwPlatformId = 2; v->szCSDVersion[0] = 0;
    return TRUE;
}
HLOCAL LocalAlloc(UINT f, SIZE_T n) { DWORD fe = sim::api("LocalAlloc"); if (fe) { ERR(fe); return nullptr; } void *p = calloc(1, n); (void)f; return p; }
HLOCAL LocalFree(HLOCAL p) { free(p); return nullptr; }
void DebugBreak() {}
void OutputDebugStringA(LPCSTR) {}
void OutputDebugStringW(LPCWSTR) {}
BOOL IsDebuggerPresent() { return FALSE; }

int _wcsicmp(const wchar_t *a, const wchar_t *b) {
    for (;; a++, b++) { wchar_t x = *a, y = *b; if (x < 128) x = tolower(x); if (y < 128) y = tolower(y); if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int WideCharToMultiByte(UINT, DWORD, LPCWSTR s, int n, LPSTR o, int on, LPCCH, LPBOOL) {
    FAULT("WideCharToMultiByte", 0);
    if (n < 0) n = wcslen(s) + 1;
    if (n == 0) { ERR(ERROR_INVALID_PARAMETER); return 0; }
    std::string r;
    for (int i = 0; i < n; i++) {
        uint32_t c = s[i];
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < n && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { c = 0x10000 + ((c - 0xD800) << 10) + (s[i + 1] - 0xDC00); i++; }
        else if (c >= 0xD800 && c < 0xE000) c = 0xFFFD;
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    }
    if (on == 0) return r.size();
    if ((int)r.size() > on) { ERR(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(o, r.data(), r.size()); return r.size();
}
int MultiByteToWideChar(UINT, DWORD, LPCCH s, int n, LPWSTR o, int on) {
    if (n < 0) n = strlen(s) + 1;
    std::wstring r;
    for (int i = 0; i < n;) {
        unsigned char c = s[i]; uint32_t v; int k;
        if (c < 0x80) { v = c; k = 1; } else if (c < 0xE0) { v = c & 31; k = 2; } else if (c < 0xF0) { v = c & 15; k = 3; } else { v = c & 7; k = 4; }
        if (i + k > n) { r += (wchar_t)0xFFFD; break; }
        for (int q = 1; q < k; q++) v = v << 6 | (s[i + q] & 63);
        i += k;
        if (v < 0x10000) r += (wchar_t)v; else { v -= 0x10000; r += (wchar_t)(0xD800 + (v >> 10)); r += (wchar_t)(0xDC00 + (v & 1023)); }
    }
    if (!on) return r.size();
    if ((int)r.size() > on) { ERR(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(o, r.data(), r.size() * 2); return r.size();
}

// process termination inside the code under test (the shared objects are linked with --wrap)
void __wrap_exit(int c) { exitCurrent(c, "exit"); }
void __wrap__exit(int c) { exitCurrent(c, "_exit"); }
void __wrap_abort() { exitCurrent(3, "abort"); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) {
    log(J().s("ev", "assert").s("expr", e));
    (void)f; (void)l;
    exitCurrent(3, "assert");
}
} // extern "C"

namespace sim { DWORD lastErrOf(Thread *t) { return t->lastError; } }

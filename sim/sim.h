// A deterministic stand-in for the parts of Win32 that winpty uses.  The real sources of /repo are compiled
// natively and run against it; everything the checks judge is observed at this boundary (API calls, bytes on
// pipes, console contents, input records), never inside the code under test.
#pragma once
#include <windows.h>
#include <aclapi.h>
#include <pthread.h>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Proc;
struct Thread;
struct Console;

// ---------------------------------------------------------------- JSON log
std::string jstr(const std::string &s);
std::string jwstr(const std::wstring &s);         // UTF-16 -> JSON (ASCII kept, others \uXXXX)
std::string narrow(const std::wstring &s);
std::wstring widen(const std::string &s);
struct J {                                        // tiny JSON object builder
    std::string b = "{";
    J &raw(const char *k, const std::string &v) { if (b.size() > 1) b += ','; b += jstr(k); b += ':'; b += v; return *this; }
    J &s(const char *k, const std::string &v) { return raw(k, jstr(v)); }
    J &w(const char *k, const std::wstring &v) { return raw(k, jwstr(v)); }
    J &i(const char *k, long long v) { return raw(k, std::to_string(v)); }
    J &t(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
    std::string str() const { return b + "}"; }
};
extern std::vector<std::string> g_log;
void log(const J &j);
void logRaw(const std::string &s);

// ---------------------------------------------------------------- objects
struct Obj : std::enable_shared_from_this<Obj> {
    virtual ~Obj() {}
    virtual const char *kind() = 0;
    virtual bool signaled() { return false; }
    virtual void consumed() {}                    // a wait was satisfied by it
    virtual void onLastClose(Proc *) {}
    int refs = 0;                                 // number of open handles
};
typedef std::shared_ptr<Obj> ObjP;

struct Event : Obj {
    bool manual, set;
    Event(bool m, bool s) : manual(m), set(s) {}
    const char *kind() override { return "event"; }
    bool signaled() override { return set; }
    void consumed() override { if (!manual) set = false; }
};
struct MutexObj : Obj { const char *kind() override { return "mutex"; } bool signaled() override { return true; } };

struct HandleEnt { ObjP obj; DWORD access; bool inherit; bool closed; std::string what; };

struct Proc : Obj {
    DWORD pid;
    std::string name;
    std::wstring cmdline, app, cwd;
    bool hasEnv = false; std::wstring env;
    bool exited = false;
    DWORD exitCode = 0;
    std::map<uintptr_t, HandleEnt> handles;
    uintptr_t nextHandle = 0x40;
    std::shared_ptr<Console> console;
    HANDLE stdIn = nullptr, stdOut = nullptr, stdErr = nullptr;
    HWINSTA station = nullptr;
    HDESK desktop = nullptr;
    std::vector<Thread *> threads;
    std::map<std::string, std::string> environ_;
    std::wstring desktopName;
    std::wstring modulePath;
    bool isAgent = false;
    bool ignoreCtrlC = false; std::vector<void *> ctrlHandlers;
    int doubleClose = 0;
    const char *kind() override { return "process"; }
    bool signaled() override { return exited; }
    HANDLE add(ObjP o, DWORD access, const std::string &what, bool inherit = false);
    HandleEnt *get(HANDLE h);
    size_t openHandles(const char *kind = nullptr);
};
struct ThreadObj : Obj { Proc *p; const char *kind() override { return "thread"; } bool signaled() override { return p && p->exited; } };
struct Token : Obj { std::string user; const char *kind() override { return "token"; } };
struct Winsta : Obj { std::wstring name; const char *kind() override { return "winsta"; } };
struct Desktop : Obj { std::wstring name; ObjP sta; const char *kind() override { return "desktop"; } };

// ---------------------------------------------------------------- pipes
struct PipeEnd;
struct Io {
    OVERLAPPED *ov; char *buf; size_t n = 0, done = 0; bool isRead = false, isConnect = false;
    std::vector<char> data;                       // writes: private copy of what is still to go
    Thread *thr; std::shared_ptr<Event> ev; PipeEnd *end; bool cancelRequested = false;
};
struct Pipe {
    std::wstring name;
    DWORD openMode = 0, pipeMode = 0, maxInst = 0, outBuf = 0, inBuf = 0;
    std::string sd;
    std::shared_ptr<PipeEnd> server, client;
    bool everConnected = false;
    DWORD clientPid = 0, serverPid = 0;
};
struct PipeEnd : Obj {
    std::shared_ptr<Pipe> pipe;
    bool isServer;
    bool overlapped = true;
    bool open = true;
    Proc *owner = nullptr;
    std::deque<char> in;                          // bytes readable by this end
    size_t quota = 4096;                          // capacity of `in`
    std::deque<std::shared_ptr<Io>> reads, writes, connects;
    size_t totalIn = 0, totalOut = 0;             // bytes ever delivered to / accepted from this end
    DWORD sqos = 0;
    bool readHold = false;                        // completions of reads withheld until released
    const char *kind() override { return "pipe"; }
    PipeEnd *peer() { return isServer ? pipe->client.get() : pipe->server.get(); }
    void onLastClose(Proc *) override;
};
extern std::vector<std::shared_ptr<Pipe>> g_pipes;
std::shared_ptr<Pipe> findPipe(const std::wstring &name);
void pumpPipe(Pipe *p);

// raw peers for the drivers
struct RawEnd {                                   // a pipe end held by the driver
    std::shared_ptr<PipeEnd> end;
    explicit operator bool() const { return (bool)end; }
    bool broken();                                // peer gone and nothing left to read
    bool peerGone();
    size_t write(const std::string &s);           // as much as fits; returns the amount
    std::string read(size_t max = SIZE_MAX);
    size_t avail();
    void close();
};
RawEnd rawConnect(const std::wstring &name, DWORD asPid);

// ---------------------------------------------------------------- scheduler
struct Thread {
    int id; Proc *proc; std::string name;
    pthread_t pt; pthread_cond_t cv;
    enum St { Ready, Running, Blocked, Dead } st = Ready;
    std::function<bool()> ready;                  // condition while blocked
    uint64_t deadline = UINT64_MAX;
    bool timedOut = false;
    DWORD lastError = 0;
    bool idleWaiter = false;
    int apiSeq = 0;
    HDESK desktop = nullptr;
    const char *where = "";
};
extern uint64_t g_now;                            // ms
extern Thread *g_cur;
Thread *self();
Proc *curProc();
void init(uint64_t seed);
Thread *spawnThread(Proc *p, const std::string &name, std::function<void()> fn);
void blockUntil(std::function<bool()> pred, uint64_t deadline, const char *where);
void yieldNow();                                  // let others run (stay ready)
void runIdle();                                   // driver: run everybody else until all are blocked
void advance(uint64_t ms);                        // driver: same, letting time pass
bool runUntil(std::function<bool()> pred, uint64_t maxMs); // driver
void killProc(Proc *p, DWORD code);
[[noreturn]] void exitCurrent(DWORD code, const char *how);
uint64_t rnd(uint64_t n);
extern uint64_t g_rng;
extern int g_preemptEvery;                        // 0: never; k: yield at an API call with probability 1/k
extern bool g_deadlock;

std::shared_ptr<Proc> newProc(const std::string &name, DWORD pid = 0);
extern std::map<DWORD, std::shared_ptr<Proc>> g_procs;

// ---------------------------------------------------------------- faults & injection
struct Fault { std::string api; int nth; DWORD err; };
extern std::vector<Fault> g_faults;
extern std::map<std::string, int> g_apiCount;
extern std::vector<std::string> g_apiLog;
extern bool g_apiLogOn;
extern std::function<void(const char *api)> g_onApi;     // called at entry of every simulated API call
// returns 0 or the error the call must fail with
DWORD api(const char *name);

extern int g_cancelMode;                          // 0: CancelIo completes at once; 1: completes when waited for; 2: completes successfully when it can
extern int g_completionMode;                      // 0: data available -> immediate completion; 1: always via PENDING
extern std::function<bool(Proc *caller, Proc *child, DWORD flags, const std::wstring &desktop, DWORD &err)> g_onCreateProcess;

// configuration of the simulated OS
struct OsCfg { DWORD major = 10, minor = 0, build = 14393; bool newConsole = true; bool crypt = true; bool pidApi = true; int largestX = 300, largestY = 120; bool fontApi = true; int minCols = 0; uint64_t closeDelay = 20; bool closeHangs = false; bool german = false; };
extern OsCfg g_os;

// ---------------------------------------------------------------- console
struct ScreenBuf : Obj {
    int w = 80, h = 300;
    std::vector<CHAR_INFO> cells;
    int curX = 0, curY = 0;
    bool curVis = true; DWORD curSize = 25;
    WORD attr = 7;
    SMALL_RECT win = {0, 0, 79, 24};
    DWORD mode = 3;
    Console *con = nullptr;
    std::string label;
    const char *kind() override { return "conout"; }
    CHAR_INFO &at(int x, int y) { return cells[(size_t)y * w + x]; }
    void init(int w, int h, WORD a);
    void resize(int nw, int nh);
    void scroll(int n);                           // everything moves up n lines
    // application-side operations (WriteConsole & co)
    void write(const std::wstring &s);
    void putWide(wchar_t c);                      // full-width char: two cells
    void setCursor(int x, int y);
    void fill(int x, int y, int n, wchar_t c, WORD a);
    void scrollWindowTo();
};
struct ConIn : Obj { Console *con; const char *kind() override { return "conin"; } bool signaled() override; };
struct Console : std::enable_shared_from_this<Console> {
    std::shared_ptr<ScreenBuf> active;
    std::vector<std::shared_ptr<ScreenBuf>> bufs;
    std::shared_ptr<ConIn> conin;
    std::wstring title = L"console";
    DWORD inMode = 0xf7;                          // includes extended|quickedit|insert|mouse|echo|line|processed
    UINT cp = 437, outCp = 437;
    bool frozen = false; bool frozenByMark = false;
    int savedX = 0, savedY = 0;
    int freezes = 0, unfreezes = 0;
    std::vector<DWORD> procs;                     // attached pids, most recent first
    bool closing = false;
    std::deque<INPUT_RECORD> input;
    HWND hwnd;
    std::deque<std::function<void()>> pendingOps; // application operations blocked by a freeze
    void app(std::function<void()> op) { if (frozen) pendingOps.push_back(op); else op(); }
};
extern std::vector<std::shared_ptr<Console>> g_consoles;
std::shared_ptr<Console> newConsole();
void logProcs(Console *c);                          // the attached processes have changed
Console *consoleOf(Proc *p);
extern bool g_logConsole, g_logInput, g_conDirty;
extern std::function<void(Console *)> g_onProcList;
extern Proc *g_faultProc;
extern int g_readChunk;
extern std::function<void(const char *)> g_onFatal;
extern uint64_t g_livelockLimit;
void fatal(const char *why);

struct TraceSrv { enum { None, Absent, Ok, Busy, Leaves, Denied, Broken } mode = None; int n = 0, left = 0; uint64_t delay = 0; /* turns of others before it answers */ unsigned next = 0, calls = 0; std::set<uintptr_t> open; };
extern TraceSrv g_trace;
extern bool g_logPipes;                                    // bytes entering the data pipes
extern std::map<std::string, std::string> g_env;           // every new process gets these

// security descriptions, in a canonical text form
std::string describeSd(const void *sd);

FARPROC getProc(const std::string &module, const std::string &name);
extern std::map<std::string, void *> g_extraProcs;

void writeLog(const char *path);
} // namespace sim

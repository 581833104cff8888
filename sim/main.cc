// The scenario interpreter: runs the real agent and/or the real libwinpty in the simulated OS and logs everything
// observable at the boundary.  Usage: harness AGENT_SO LIB_SO SCENARIOS OUTDIR [jobs]
// SCENARIOS: "## <id>" starts a scenario; each further line is one command.  The log of scenario <id> goes to OUTDIR/<id>.ndjson.
#include "sim.h"
#include "simunix.h"
#include <dlfcn.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include "winpty.h"
#include "AgentMsg.h"

namespace sim { extern std::function<void(const char *)> g_onFatal; }
using namespace sim;

static std::string g_out;
static void *g_agentSo, *g_libSo;
static int (*agent_main)();
static int (*adapter_main)(int, char **);

static std::string unhex(const std::string &h) {
    std::string r; if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtoul(h.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
static std::string hex(const std::string &s) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static std::wstring unhexw(const std::string &h) {  // 4 hex digits per UTF-16 unit
    std::wstring r; if (h == "-") return r;
    for (size_t i = 0; i + 3 < h.size(); i += 4) r += (wchar_t)strtoul(h.substr(i, 4).c_str(), nullptr, 16);
    return r;
}
static std::string hexw(const std::wstring &w) { std::string r; char b[8]; for (wchar_t c : w) { snprintf(b, 8, "%04x", (unsigned)(unsigned short)c); r += b; } return r; }

// ------------------------------------------------------------------ agent side
static std::shared_ptr<Proc> g_agent, g_app;
static RawEnd g_ctl, g_conin, g_conout, g_conerr;
static std::wstring g_ctlName, g_coninName, g_conoutName, g_conerrName;
static std::string g_ctlBuf;
static bool g_gotSetup = false;
static std::vector<DWORD> g_childFail;
static uint64_t g_flags = 0;
static std::vector<std::shared_ptr<Proc>> g_children;
static std::vector<std::shared_ptr<Proc>> g_agents;

static std::string frame(const std::string &payload) { uint64_t n = payload.size() + 8; std::string r((const char *)&n, 8); return r + payload; }
static std::string i32(int32_t v) { return std::string(1, '\0') + std::string((const char *)&v, 4); }
static std::string i64(int64_t v) { return std::string(1, '\1') + std::string((const char *)&v, 8); }
static std::string wstr(const std::wstring &w) { uint64_t n = w.size(); std::string r(1, '\2'); r.append((const char *)&n, 8); r.append((const char *)w.data(), w.size() * 2); return r; }

static RawEnd rawServer(const std::wstring &name, size_t outB, size_t inB) {
    auto p = std::make_shared<Pipe>();
    p->name = name; p->openMode = 3; p->outBuf = outB; p->inBuf = inB; p->serverPid = 1;
    auto e = std::make_shared<PipeEnd>();
    e->pipe = p; e->isServer = true; e->quota = inB;
    p->server = e; g_pipes.push_back(p);
    RawEnd r; r.end = e; return r;
}
static void startAgentThread(std::shared_ptr<Proc> p) {
    g_agent = p; g_agents.push_back(p);
    spawnThread(p.get(), "agent", [] { int rc = agent_main(); exitCurrent(rc, "main"); });
}
static void readCtl(size_t max = SIZE_MAX) {
    if (!g_ctl) return;
    g_ctlBuf += g_ctl.read(max);
    for (;;) {
        if (g_ctlBuf.size() < 8) break;
        uint64_t n; memcpy(&n, g_ctlBuf.data(), 8);
        if (n < 8 || n > (1u << 28)) { log(J().s("ev", "ctlBadFrame").i("size", n)); g_ctlBuf.clear(); break; }
        if (g_ctlBuf.size() < n) break;
        std::string pl = g_ctlBuf.substr(8, n - 8);
        g_ctlBuf.erase(0, n);
        log(J().s("ev", "ctlReply").s("hex", hex(pl)).i("now", g_now));
    }
}
static void parseSetup(const std::string &pl) {
    size_t pos = 0;
    auto next = [&]() -> std::wstring {
        uint64_t n = 0; if (pos + 9 > pl.size() || pl[pos] != 2) { pos = pl.size() + 1; return L""; }
        memcpy(&n, &pl[pos + 1], 8); pos += 9;
        if (n > (pl.size() - pos) / 2) { pos = pl.size() + 1; return L""; }
        std::wstring w; for (uint64_t i = 0; i < n; i++) { wchar_t c; memcpy(&c, &pl[pos + i * 2], 2); w += c; } pos += n * 2; return w;
    };
    g_coninName = next(); g_conoutName = next(); g_conerrName = (g_flags & 1) ? next() : L"";
    log(J().s("ev", "setup").w("conin", g_coninName).w("conout", g_conoutName).w("conerr", g_conerrName).t("exact", pos == pl.size()));
    g_gotSetup = true;
}
static RawEnd &pipeByName(const std::string &n) { return n == "conin" ? g_conin : n == "conout" ? g_conout : n == "conerr" ? g_conerr : g_ctl; }
static std::wstring nameOf(const std::string &n) { return n == "conin" ? g_coninName : n == "conout" ? g_conoutName : g_conerrName; }

static std::string cellsJson(ScreenBuf *b, int x0, int y0, int x1, int y1) {
    std::string r = "[";
    for (int y = y0; y <= y1; y++) {
        if (y > y0) r += ',';
        std::string line;
        for (int x = x0; x <= x1; x++) {
            char t[16]; snprintf(t, 16, "%04x%04x", (unsigned)(unsigned short)b->at(x, y).Char.UnicodeChar, (unsigned)b->at(x, y).Attributes); line += t;
        }
        r += '"' + line + '"';
    }
    return r + "]";
}
static Console *con() { return g_agent ? (g_agent->console ? g_agent->console.get() : g_consoles.empty() ? nullptr : g_consoles.back().get()) : g_consoles.empty() ? nullptr : g_consoles.back().get(); }
static void snap(bool cells) {
    Console *c = con();
    J j; j.s("ev", "snap").i("now", g_now).t("alive", g_agent && !g_agent->exited);
    if (g_agent) j.i("exit", g_agent->exitCode);
    if (c) {
        std::string bufs = "[";
        for (size_t i = 0; i < c->bufs.size(); i++) {
            auto *b = c->bufs[i].get();
            J q; q.s("label", b->label).t("active", c->active.get() == b).i("w", b->w).i("h", b->h).i("cx", b->curX).i("cy", b->curY).t("vis", b->curVis).i("attr", b->attr)
                .i("l", b->win.Left).i("t", b->win.Top).i("r", b->win.Right).i("b", b->win.Bottom).i("mode", b->mode);
            if (cells) q.raw("cells", cellsJson(b, b->win.Left, b->win.Top, b->win.Right, b->win.Bottom));
            if (i) bufs += ','; bufs += q.str();
        }
        bufs += "]";
        std::string procs = "["; for (size_t i = 0; i < c->procs.size(); i++) { if (i) procs += ','; procs += std::to_string(c->procs[i]); } procs += "]";
        j.raw("bufs", bufs).w("title", c->title).i("inMode", c->inMode).t("frozen", c->frozen).i("freezes", c->freezes).i("unfreezes", c->unfreezes).t("closing", c->closing).raw("procs", procs).i("pendingOps", c->pendingOps.size());
    }
    log(j);
}

// application threads (for interleaved schedules)
struct AppThread { std::deque<std::vector<std::string>> q; Thread *t = nullptr; };
static AppThread g_appThr;
static void doApp(const std::vector<std::string> &a);
static void appOp(const std::vector<std::string> &a) {
    Console *c = con(); if (!c) return;
    ScreenBuf *b = c->active.get();
    const std::string &op = a[0];
    { std::string v = "["; for (size_t i = 1; i < a.size(); i++) { if (i > 1) v += ','; v += jstr(a[i]); } log(J().s("ev", "op").s("op", op).raw("a", v + "]").s("on", b->label).i("now", g_now)); }
    auto n = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
    auto find = [&](const std::string &l) -> ScreenBuf * { for (auto &x : c->bufs) if (x->label == l) return x.get(); return b; };
    if (op == "write") b->write(unhexw(a[1]));
    else if (op == "writeto") find(a[1])->write(unhexw(a[2]));
    else if (op == "wide") { for (wchar_t ch : unhexw(a[1])) b->putWide(ch); }
    else if (op == "cursor") { if (n(1) < b->w && n(2) < b->h) b->setCursor(n(1), n(2)); }
    else if (op == "wcursor") { b->setCursor(std::min(n(1), b->w - 1), std::min<int>(b->win.Top + n(2), b->h - 1)); }
    else if (op == "wcursorto") { auto *x = find(a[1]); x->setCursor(std::min(n(2), x->w - 1), std::min<int>(x->win.Top + n(3), x->h - 1)); }
    else if (op == "attr") b->attr = n(1);
    else if (op == "attrto") find(a[1])->attr = n(2);
    else if (op == "fill") b->fill(n(1), n(2), n(3), n(4), n(5));
    else if (op == "wfill") b->fill(n(1), b->win.Top + n(2), n(3), n(4), n(5));
    else if (op == "curvis") b->curVis = n(1);
    else if (op == "curvisto") find(a[1])->curVis = n(2);
    else if (op == "title") { c->title = unhexw(a[1]); log(J().s("ev", "appTitle").w("title", c->title).i("now", g_now)); }
    else if (op == "bufsize") { int w = n(1), h = n(2); if (w >= b->win.Right - b->win.Left + 1 && h >= b->win.Bottom - b->win.Top + 1) b->resize(w, h); }
    else if (op == "win") { SMALL_RECT r = {(SHORT)n(1), (SHORT)n(2), (SHORT)n(3), (SHORT)n(4)}; if (r.Left >= 0 && r.Top >= 0 && r.Right < b->w && r.Bottom < b->h && r.Right >= r.Left && r.Bottom >= r.Top) b->win = r; }
    else if (op == "fit") { // make the window fill the (resized) buffer: what a full-screen program does
        int w = std::min(n(1), g_os.largestX), h = std::min(n(2), g_os.largestY);
        b->win = {0, 0, 0, 0}; b->curX = std::min(b->curX, w - 1); if (b->curY >= h) b->curY = h - 1; b->resize(w, h); b->win = {0, 0, (SHORT)(w - 1), (SHORT)(h - 1)};
    }
    else if (op == "cls") { b->fill(0, 0, b->w * b->h, L' ', b->attr); b->setCursor(0, 0); int wh = b->win.Bottom - b->win.Top; b->win.Top = 0; b->win.Bottom = wh; }
    else if (op == "inmode") c->inMode = strtoul(a[1].c_str(), nullptr, 0);
    else if (op == "outmode") b->mode = strtoul(a[1].c_str(), nullptr, 0);
    else if (op == "outcp") c->outCp = n(1);
    else if (op == "newbuf") { auto nb = std::make_shared<ScreenBuf>(); nb->label = "app" + std::to_string(c->bufs.size()); nb->con = c; nb->init(b->win.Right - b->win.Left + 1, b->win.Bottom - b->win.Top + 1, b->attr); nb->win = {0, 0, (SHORT)(nb->w - 1), (SHORT)(nb->h - 1)}; c->bufs.push_back(nb); }
    else if (op == "activate") { for (auto &x : c->bufs) if (x->label == a[1] || (a[1] == "last" && x == c->bufs.back())) { c->active = x; break; } }
    else if (op == "exit") { if (g_app) killProc(g_app.get(), n(1)); }
    else if (op == "attach") { for (int i = 0; i < n(1); i++) { auto p = newProc("extra.exe"); p->console = c->shared_from_this(); c->procs.insert(c->procs.begin(), p->pid); } logProcs(c); }
    else if (op == "detach") { for (int i = 0; i < n(1) && c->procs.size() > 1; i++) { DWORD pid = c->procs.front(); c->procs.erase(c->procs.begin()); g_procs[pid]->console.reset(); } logProcs(c); }
    else fprintf(stderr, "unknown app op %s\n", op.c_str());
}
static void doApp(const std::vector<std::string> &a) {
    Console *c = con(); if (!c) return;
    auto copy = a;
    c->app([copy] { appOp(copy); });
}

// ------------------------------------------------------------------ libwinpty side
static std::shared_ptr<Proc> g_client;
static std::map<std::string, winpty_t *> g_wp;
static std::map<std::string, winpty_config_t *> g_cfg;
static std::map<std::string, winpty_spawn_config_t *> g_scfg;
struct Lib {
    decltype(&winpty_error_code) error_code; decltype(&winpty_error_msg) error_msg; decltype(&winpty_error_free) error_free;
    decltype(&winpty_config_new) config_new; decltype(&winpty_config_free) config_free; decltype(&winpty_config_set_initial_size) set_initial_size;
    decltype(&winpty_config_set_mouse_mode) set_mouse_mode; decltype(&winpty_config_set_agent_timeout) set_agent_timeout;
    decltype(&winpty_open) open; decltype(&winpty_agent_process) agent_process;
    decltype(&winpty_conin_name) conin_name; decltype(&winpty_conout_name) conout_name; decltype(&winpty_conerr_name) conerr_name;
    decltype(&winpty_spawn_config_new) spawn_config_new; decltype(&winpty_spawn_config_free) spawn_config_free; decltype(&winpty_spawn) spawn;
    decltype(&winpty_set_size) set_size; decltype(&winpty_get_console_process_list) plist; decltype(&winpty_free) free_;
} L;
template <class T> static void sym(T &t, const char *n) { t = (T)dlsym(g_libSo, n); if (!t) { fprintf(stderr, "no symbol %s\n", n); exit(9); } }
static void loadLib() {
    sym(L.error_code, "winpty_error_code"); sym(L.error_msg, "winpty_error_msg"); sym(L.error_free, "winpty_error_free");
    sym(L.config_new, "winpty_config_new"); sym(L.config_free, "winpty_config_free"); sym(L.set_initial_size, "winpty_config_set_initial_size");
    sym(L.set_mouse_mode, "winpty_config_set_mouse_mode"); sym(L.set_agent_timeout, "winpty_config_set_agent_timeout");
    sym(L.open, "winpty_open"); sym(L.agent_process, "winpty_agent_process"); sym(L.conin_name, "winpty_conin_name"); sym(L.conout_name, "winpty_conout_name"); sym(L.conerr_name, "winpty_conerr_name");
    sym(L.spawn_config_new, "winpty_spawn_config_new"); sym(L.spawn_config_free, "winpty_spawn_config_free"); sym(L.spawn, "winpty_spawn");
    sym(L.set_size, "winpty_set_size"); sym(L.plist, "winpty_get_console_process_list"); sym(L.free_, "winpty_free");
}
extern "C" {   // the adapter's imports from winpty.dll
winpty_config_t *winpty_config_new(UINT64 f, winpty_error_ptr_t *e) { return L.config_new(f, e); }
void winpty_config_free(winpty_config_t *c) { L.config_free(c); }
void winpty_config_set_initial_size(winpty_config_t *c, int w, int h) { L.set_initial_size(c, w, h); }
void winpty_config_set_mouse_mode(winpty_config_t *c, int m) { L.set_mouse_mode(c, m); }
void winpty_config_set_agent_timeout(winpty_config_t *c, DWORD t) { L.set_agent_timeout(c, t); }
winpty_t *winpty_open(const winpty_config_t *c, winpty_error_ptr_t *e) { return L.open(c, e); }
HANDLE winpty_agent_process(winpty_t *w) { return L.agent_process(w); }
LPCWSTR winpty_conin_name(winpty_t *w) { return L.conin_name(w); }
LPCWSTR winpty_conout_name(winpty_t *w) { return L.conout_name(w); }
LPCWSTR winpty_conerr_name(winpty_t *w) { return L.conerr_name(w); }
winpty_spawn_config_t *winpty_spawn_config_new(UINT64 f, LPCWSTR a, LPCWSTR b, LPCWSTR c, LPCWSTR d, winpty_error_ptr_t *e) { return L.spawn_config_new(f, a, b, c, d, e); }
void winpty_spawn_config_free(winpty_spawn_config_t *c) { L.spawn_config_free(c); }
BOOL winpty_spawn(winpty_t *w, const winpty_spawn_config_t *c, HANDLE *p, HANDLE *t, DWORD *ce, winpty_error_ptr_t *e) { return L.spawn(w, c, p, t, ce, e); }
BOOL winpty_set_size(winpty_t *w, int c, int r, winpty_error_ptr_t *e) { return L.set_size(w, c, r, e); }
int winpty_get_console_process_list(winpty_t *w, int *l, const int n, winpty_error_ptr_t *e) { return L.plist(w, l, n, e); }
void winpty_free(winpty_t *w) { L.free_(w); }
winpty_result_t winpty_error_code(winpty_error_ptr_t e) { return L.error_code(e); }
LPCWSTR winpty_error_msg(winpty_error_ptr_t e) { return L.error_msg(e); }
void winpty_error_free(winpty_error_ptr_t e) { L.error_free(e); }
}
// what a handle of the client refers to
static std::string handleKind(HANDLE h) {
    if (!h) return "null";
    HandleEnt *e = g_client->get(h);
    if (!e) return "invalid";
    if (auto *p = dynamic_cast<Proc *>(e->obj.get())) return "process:" + std::to_string(p->pid);
    if (auto *t = dynamic_cast<ThreadObj *>(e->obj.get())) return "thread:" + std::to_string(t->p->pid);
    return e->obj->kind();
}
static size_t pendingIo(Thread *only = nullptr) {
    size_t n = 0;
    for (auto &p : g_pipes) for (auto *e : {p->server.get(), p->client.get()}) if (e && e->owner == g_client.get() && e->open)
        for (auto *q : {&e->reads, &e->writes, &e->connects}) for (auto &io : *q) if (!only || io->thr == only) n++;
    return n;
}
static std::string station(Proc *p) { auto *e = p->get((HANDLE)p->station); return e ? narrow(((Winsta *)e->obj.get())->name) : "?"; }
static HANDLE kPoison = (HANDLE)(uintptr_t)0x0badbad0;

static int g_callSeq = 0;
static void libCall(std::vector<std::string> a) {
    std::string opt;                              // option words after '/'
    for (size_t i = 0; i < a.size(); i++) if (a[i][0] == '/') { opt += a[i]; a.erase(a.begin() + i); i--; }
    bool noErr = opt.find("/noerr") != std::string::npos;
    bool keep = opt.find("/keep") != std::string::npos;
    const std::string api = a[0];
    auto n = [&](size_t i) { return i < a.size() ? atoll(a[i].c_str()) : 0; };
    winpty_error_ptr_t err = (winpty_error_ptr_t)kPoison, *ep = noErr ? nullptr : &err;
    int id = ++g_callSeq;
    log(J().s("ev", "call").s("opt", opt).i("id", id).i("t", self()->id).s("api", api).i("now", g_now).raw("args", [&] { std::string r = "["; for (size_t i = 1; i < a.size(); i++) { if (i > 1) r += ','; r += jstr(a[i]); } return r + "]"; }()));
    J j; j.s("ev", "ret").i("id", id).i("t", self()->id).s("api", api);
    bool ok = true;
    self()->lastError = 7777;
    if (api == "config") { auto *c = L.config_new(strtoull(a[2].c_str(), nullptr, 0), ep); ok = c; g_cfg[a[1]] = c; }
    else if (api == "size") { L.set_initial_size(g_cfg[a[1]], n(2), n(3)); noErr = true; }
    else if (api == "mouse") { L.set_mouse_mode(g_cfg[a[1]], n(2)); noErr = true; }
    else if (api == "timeout") { L.set_agent_timeout(g_cfg[a[1]], n(2)); noErr = true; }
    else if (api == "freeconfig") { L.config_free(g_cfg[a[1]]); g_cfg.erase(a[1]); noErr = true; }
    else if (api == "open") {
        auto *w = L.open(g_cfg[a[2]], ep); ok = w; g_wp[a[1]] = w;
        j.s("station", station(g_client.get()));
        if (w) {
            auto nm = [&](LPCWSTR s) { return s ? std::wstring(s) : std::wstring(L"<null>"); };
            g_coninName = nm(L.conin_name(w)); g_conoutName = nm(L.conout_name(w)); g_conerrName = nm(L.conerr_name(w));
            j.w("conin", g_coninName).w("conout", g_conoutName).w("conerr", g_conerrName).s("agent", handleKind(L.agent_process(w)));
        }
    }
    else if (api == "spawnconfig") {
        auto opt_ = [&](size_t i, std::wstring &s) -> LPCWSTR { if (a[i] == "null") return nullptr; s = unhexw(a[i]); return s.c_str(); };
        std::wstring s1, s2, s3, s4;
        LPCWSTR p1 = opt_(3, s1), p2 = opt_(4, s2), p3 = opt_(5, s3), p4 = opt_(6, s4);
        auto *c = L.spawn_config_new(strtoull(a[2].c_str(), nullptr, 0), p1, p2, p3, p4, ep); ok = c; g_scfg[a[1]] = c;
        for (auto *s : {&s1, &s2, &s3, &s4}) std::fill(s->begin(), s->end(), L'#');   // the caller's strings may go away
    }
    else if (api == "freespawn") { L.spawn_config_free(g_scfg[a[1]]); g_scfg.erase(a[1]); noErr = true; }
    else if (api == "spawn") {
        bool wp = opt.find("/p") != std::string::npos, wt = opt.find("/t") != std::string::npos, we = opt.find("/e") != std::string::npos;
        HANDLE ph = kPoison, th = kPoison; DWORD ce = 0xdeadbeef;
        ok = L.spawn(g_wp[a[1]], g_scfg[a[2]], wp ? &ph : nullptr, wt ? &th : nullptr, we ? &ce : nullptr, ep);
        j.t("wantP", wp).t("wantT", wt).t("wantE", we).s("proc", wp ? handleKind(ph) : "-").s("thread", wt ? handleKind(th) : "-").i("cpErr", we ? (long long)ce : -1);
        if (!keep) { for (HANDLE h : {ph, th}) if (h && h != kPoison && g_client->get(h)) { HandleEnt *e = g_client->get(h); e->closed = true; e->obj->refs--; } }
    }
    else if (api == "setsize") ok = L.set_size(g_wp[a[1]], n(2), n(3), ep);
    else if (api == "plist") {
        int cap = n(2);
        std::vector<int> v(cap + 64, 0x5a5a5a5a);
        int r = L.plist(g_wp[a[1]], v.data(), cap, ep); ok = r > 0;
        bool over = false; for (size_t i = cap; i < v.size(); i++) over |= v[i] != 0x5a5a5a5a;
        std::string lst = "["; bool touched = false;
        for (int i = 0; i < cap; i++) { touched |= v[i] != 0x5a5a5a5a; if (i) lst += ','; lst += std::to_string(v[i] == 0x5a5a5a5a ? -1 : v[i]); }
        j.i("count", r).i("cap", cap).t("overrun", over).t("touched", touched).raw("list", lst + "]");
    }
    else if (api == "free") { L.free_(g_wp[a[1]]); g_wp.erase(a[1]); noErr = true; }
    else { fprintf(stderr, "unknown call %s\n", api.c_str()); _exit(9); }
    j.i("le", self()->lastError);
    if (!noErr) {
        j.t("errPoison", err == (winpty_error_ptr_t)kPoison).t("errNull", err == nullptr);
        if (err && err != (winpty_error_ptr_t)kPoison) { j.i("code", L.error_code(err)).w("msg", L.error_msg(err)); L.error_free(err); }
        else j.i("code", 0);
    } else j.t("errPoison", false).t("errNull", true).i("code", -1);
    j.t("ok", ok).t("noErr", noErr).i("pendingIo", pendingIo(self())).i("handles", g_client->openHandles()).i("dbl", g_client->doubleClose).i("now", g_now);
    log(j);
}
struct LibThread { std::deque<std::vector<std::string>> q; Thread *t = nullptr; bool busy = false; };
static std::map<int, LibThread> g_thr;
static void ensureClient() {
    if (g_client) return;
    g_client = newProc("client.exe"); g_faultProc = g_client.get();
    spawnThread(g_client.get(), "anchor", [] { blockUntil([] { return false; }, UINT64_MAX, "anchor"); });
}
static void queueCall(int k, const std::vector<std::string> &a) {
    ensureClient();
    LibThread &t = g_thr[k];
    t.q.push_back(a);
    if (!t.t) {
        LibThread *p = &t;
        t.t = spawnThread(g_client.get(), "lib" + std::to_string(k), [p] {
            for (;;) {
                while (p->q.empty()) blockUntil([p] { return !p->q.empty(); }, UINT64_MAX, "libthread");
                auto c = p->q.front(); p->q.pop_front();
                p->busy = true; libCall(c); p->busy = false;
            }
        });
    }
}
static bool libIdle() { for (auto &kv : g_thr) if (kv.second.busy || !kv.second.q.empty()) return false; return true; }

// ------------------------------------------------------------------ commands
static std::string g_reply;                       // mock agent: reply bytes not yet sent
static std::string g_agentMode = "none";          // what CreateProcess of the agent does: real, mock
static DWORD g_agentCreateErr = 0;
static std::deque<std::pair<uint64_t, std::string>> g_script;

static void hookCreate() {
    g_onCreateProcess = [](Proc *by, Proc *child, DWORD flags, const std::wstring &desktop, DWORD &err) -> bool {
        if (child->isAgent) {
            if (g_agentCreateErr) { err = g_agentCreateErr; return false; }
            auto sp = std::static_pointer_cast<Proc>(child->shared_from_this());
            for (auto &kv : by->environ_) child->environ_[kv.first] = kv.second;
            std::string cl = narrow(child->cmdline);
            size_t q = cl.find("\\\\.\\pipe\\"); std::string rest = q == std::string::npos ? "" : cl.substr(q);
            g_ctlName = widen(rest.substr(0, rest.find(' ')));
            if (g_agentMode == "real") startAgentThread(sp);
            else { g_agent = sp; g_agents.push_back(sp); }
            return true;
        }
        if (!g_childFail.empty()) { DWORD e = g_childFail.front(); g_childFail.erase(g_childFail.begin()); if (e) { err = e; return false; } }
        auto sp = std::static_pointer_cast<Proc>(child->shared_from_this());
        g_children.push_back(sp); g_app = sp;
        // keep the process "alive" with a blocked thread
        return true;
    };
}

static AppThread g_bg;
static void command(const std::vector<std::string> &w);
static void sessionWrite(const std::string &pipe, const std::string &s) {   // what the session says, as the pipe takes it
    RawEnd &r = pipeByName(pipe);
    for (size_t off = 0, idle = 0; r && r.end->open && off < s.size();) {
        size_t k = r.write(s.substr(off)); off += k;
        if (off == s.size() || r.peerGone()) break;
        if (self()->id == 0) { if (!k && idle++ > 3) break; runIdle(); }
        else { PipeEnd *p = r.end->peer(); blockUntil([&] { return !r.end->open || !p || !p->open || p->in.size() < p->quota || (!p->reads.empty() && p->in.empty()); }, UINT64_MAX, "session"); if (!r.end->open) break; }
    }
}
// The Unix adapter and its user.
static bool unixCommand(const std::vector<std::string> &w) {
    const std::string &c = w[0];
    auto n = [&](size_t i) -> long long { return i < w.size() ? strtoll(w[i].c_str(), nullptr, 0) : 0; };
    if (c == "uadapter") {                        // uadapter arg... (hex)
        if (!adapter_main) { fprintf(stderr, "no adapter\n"); _exit(9); }
        g_client = newProc("winpty.exe"); g_faultProc = g_client.get(); g_adapter = g_client.get(); g_logPipes = true;
        for (auto &kv : g_tty.env) if (kv.first == "TERM" || kv.first == "WINDIR") g_client->environ_[kv.first] = kv.second;
        auto *argv = new std::vector<char *>{strdup("winpty")};
        for (size_t i = 1; i < w.size(); i++) argv->push_back(strdup(unhex(w[i]).c_str()));
        argv->push_back(nullptr);
        spawnThread(g_adapter, "adapter", [argv] { int rc = adapter_main(argv->size() - 1, argv->data()); exitCurrent(rc, "main"); });
    }
    else if (c == "mkpipes") {                    // mkpipes name conerr conin-quota conout-quota
        auto mk = [&](const char *d, RawEnd &r, int mode, size_t q) { r = rawServer(L"\\\\.\\pipe\\" + widen(d) + widen(w[1]), q, q); r.end->pipe->openMode = mode; };
        mk("in-", g_conin, 1, n(3) ? n(3) : 4096); mk("out-", g_conout, 2, n(4) ? n(4) : 4096);
        if (n(2)) mk("err-", g_conerr, 2, n(4) ? n(4) : 4096);
    }
    else if (c == "mkauto") { std::string v = w.size() > 1 ? w[1] : "good", arg = w.size() > 2 ? w[2] : "3"; spawnThread(g_procs[1].get(), "mkauto", [v, arg] {   // the session answers as long as it is asked, and goes away when it is left
        if (!g_ctl) return;
        for (;;) {
            blockUntil([] { return g_ctl.avail() || g_ctl.peerGone() || !g_ctl.end->open; }, UINT64_MAX, "mkauto");
            if (!g_ctl.end->open) return;
            if (g_ctl.avail()) { std::string b = g_ctl.read(); g_ctlBuf += b; while (g_ctlBuf.size() >= 8) { size_t before = g_ctlBuf.size(); command({"mk", "answer", v, "now", arg}); if (g_ctlBuf.size() == before) break; } continue; }
            log(J().s("ev", "left").i("now", g_now));
            for (RawEnd *r : {&g_conin, &g_conout, &g_conerr, &g_ctl}) if (*r) r->close();
            if (g_agent) killProc(g_agent.get(), 0);
            return;
        }
    }); }
    else if (c == "pw") sessionWrite(w[1], unhex(w[2]));
    else if (c == "utype") { std::string s = unhex(w[1]); g_tty.in.insert(g_tty.in.end(), s.begin(), s.end()); log(J().s("ev", "utyped").s("hex", w[1]).i("now", g_now)); }
    else if (c == "uhup") { g_tty.eof = true; log(J().s("ev", "uhup").i("now", g_now)); }
    else if (c == "uinerr") { g_tty.inErr = n(1); log(J().s("ev", "uhup").i("now", g_now)); }
    else if (c == "uwinch") { g_tty.cols = n(1); g_tty.rows = n(2); log(J().s("ev", "usize").i("c", n(1)).i("r", n(2)).i("now", g_now)); ttySignal(); }
    else if (c == "usize") { g_tty.cols = n(1); g_tty.rows = n(2); log(J().s("ev", "usize").i("c", n(1)).i("r", n(2)).i("now", g_now)); }
    else if (c == "uroom") { g_tty.room[n(1)] = w[2] == "all" ? SIZE_MAX : g_tty.done[n(1)] + n(2); }
    else if (c == "uoutfail") { g_tty.outErr[n(1)] = n(2); g_tty.room[n(1)] = g_tty.done[n(1)] + n(3); }
    else if (c == "umaxw") g_tty.maxWrite = n(1);
    else if (c == "umaxr") g_tty.maxRead = n(1);
    else if (c == "ueintr") g_tty.eintr = n(1);
    else if (c == "uyield") g_tty.yield = n(1);
    else if (c == "unorestart") g_tty.noRestart = true;
    else if (c == "upipecap") g_tty.pipeCap = n(1);
    else if (c == "unotty") g_tty.tty[n(1)] = false;
    else if (c == "umodes") { g_tty.iflag = n(1); g_tty.oflag = n(2); g_tty.cflag = n(3); g_tty.lflag = n(4); }
    else if (c == "ushared") g_tty.shared = true;
    else if (c == "uenv") g_tty.env[w[1]] = unhex(w[2]);
    else if (c == "ufile") { g_tty.files[unhex(w[1])] = unhex(w[2]); if (w.size() < 4) g_tty.exec.insert(unhex(w[2])); }
    else if (c == "ustat") {                      // how things stand once everybody waits
        auto full = [](RawEnd &r) { return r && r.end->in.size() >= r.end->quota; };
        log(J().s("ev", "ustat").t("alive", g_adapter && !g_adapter->exited).t("full", full(g_conin)).t("wait1", g_tty.done[1] >= g_tty.room[1]).t("wait2", g_tty.done[2] >= g_tty.room[2]).i("unread", g_tty.in.size()).i("now", g_now));
    }
    else if (c == "bg") {
        g_bg.q.push_back(std::vector<std::string>(w.begin() + 1, w.end()));
        if (!g_bg.t) g_bg.t = spawnThread(g_procs[1].get(), "user", [] {
            for (;;) {
                if (g_bg.q.empty()) blockUntil([] { return !g_bg.q.empty(); }, UINT64_MAX, "user");
                auto o = g_bg.q.front(); g_bg.q.pop_front();
                command(o);
                for (uint64_t i = 0, k = rnd(6); i <= k; i++) yieldNow();
            }
        });
    }
    else return false;
    return true;
}
static void command(const std::vector<std::string> &w) {
    if (unixCommand(w)) return;
    const std::string &c = w[0];
    auto n = [&](size_t i) -> long long { return i < w.size() ? strtoll(w[i].c_str(), nullptr, 0) : 0; };
    if (c == "os") { g_os.major = n(1); g_os.minor = n(2); g_os.build = n(3); g_os.newConsole = n(4); }
    else if (c == "osopt") {
        if (w[1] == "crypt") g_os.crypt = n(2); else if (w[1] == "pidApi") g_os.pidApi = n(2); else if (w[1] == "largestX") g_os.largestX = n(2); else if (w[1] == "largestY") g_os.largestY = n(2);
        else if (w[1] == "fontApi") g_os.fontApi = n(2); else if (w[1] == "minCols") g_os.minCols = n(2); else if (w[1] == "closeDelay") g_os.closeDelay = n(2); else if (w[1] == "closeHangs") g_os.closeHangs = n(2); else if (w[1] == "german") g_os.german = n(2);
    }
    else if (c == "preempt") g_preemptEvery = n(1);
    else if (c == "completion") g_completionMode = n(1);
    else if (c == "cancel") g_cancelMode = n(1);
    else if (c == "chunk") g_readChunk = n(1);
    else if (c == "env") { ensureClient(); g_client->environ_[w[1]] = unhex(w[2]); if (g_agent) g_agent->environ_[w[1]] = unhex(w[2]); g_procs[1]->environ_[w[1]] = unhex(w[2]); }
    else if (c == "denv") { g_env[w[1]] = unhex(w[2]); g_procs[1]->environ_[w[1]] = unhex(w[2]); }
    else if (c == "tracesrv") { static const char *k[] = {"none", "absent", "ok", "busy", "leaves", "denied", "broken"}; for (int i = 0; i < 7; i++) if (w[1] == k[i]) g_trace.mode = (decltype(g_trace.mode))i; g_trace.n = g_trace.left = w.size() > 2 ? n(2) : 0; g_trace.delay = w.size() > 3 ? n(3) : 0; }
    else if (c == "loginput") g_logInput = n(1);
    else if (c == "logconsole") g_logConsole = n(1);
    else if (c == "now") { g_now = strtoull(w[1].c_str(), nullptr, 0); }
    else if (c == "fault") { g_faults.push_back({w[1], (int)n(2), (DWORD)n(3)}); }
    else if (c == "apilog") g_apiLogOn = true;
    // --- the agent, driven directly
    else if (c == "agent") {                      // agent flags mouse cols rows
        g_flags = n(1);
        g_ctlName = L"\\\\.\\pipe\\winpty-control-test";
        g_ctl = rawServer(g_ctlName, 8192, 256);
        auto p = newProc("winpty-agent.exe");
        p->isAgent = true;
        for (auto &kv : g_procs[1]->environ_) p->environ_[kv.first] = kv.second;
        p->cmdline = L"winpty-agent.exe " + g_ctlName;
        for (size_t i = 1; i < w.size(); i++) p->cmdline += L" " + widen(w[i]);
        p->console = newConsole();
        p->console->procs.push_back(p->pid); logProcs(p->console.get());
        p->stdIn = p->add(p->console->conin, 0, "std-in", true); p->stdOut = p->add(p->console->active, 0, "std-out", true); p->stdErr = p->add(p->console->active, 0, "std-err", true);
        startAgentThread(p);
        runIdle();
        std::string b = g_ctl.read();
        if (getenv("SIMDBG")) fprintf(stderr, "setup %s\n", hex(b).c_str());
        if (b.size() >= 8) { uint64_t sz; memcpy(&sz, b.data(), 8); if (sz >= 8 && b.size() >= sz) { parseSetup(b.substr(8, sz - 8)); g_ctlBuf = b.substr(sz); } }
        if (!g_gotSetup) log(J().s("ev", "noSetup"));
    }
    else if (c == "consize") { /* initial console geometry: newConsole() default */ }
    else if (c == "conn") { RawEnd &r = pipeByName(w[1]); r = rawConnect(nameOf(w[1]), n(2) ? n(2) : 1); log(J().s("ev", "conn").s("pipe", w[1]).t("ok", (bool)r).i("now", g_now)); }
    else if (c == "in") {
        std::string s = unhex(w[1]); size_t off = 0;
        log(J().s("ev", "in").s("hex", w[1]).i("now", g_now));
        for (int guard = 0; off < s.size() && guard < 100000; guard++) { size_t k = g_conin.write(s.substr(off)); off += k; if (off < s.size() && !k) { runIdle(); k = g_conin.write(s.substr(off)); off += k; if (!k) { if (g_conin.peerGone()) break; advance(1); } } }
        if (off < s.size()) log(J().s("ev", "inShort").i("sent", off).i("now", g_now));
    }
    else if (c == "rd") {
        RawEnd &r = pipeByName(w[1]);
        if (r) {
            size_t max = w.size() > 2 ? n(2) : SIZE_MAX;
            std::string s = r.read(max);
            log(J().s("ev", "out").s("pipe", w[1]).s("hex", hex(s)).t("eof", r.broken()).i("now", g_now));
        }
    }
    else if (c == "drain") {                      // read everything, letting the agent refill, without letting time pass
        RawEnd &r = pipeByName(w[1]);
        if (r) {
            std::string s;
            for (int i = 0; i < 100000; i++) { std::string k = r.read(); s += k; runIdle(); if (k.empty() && !r.avail()) break; }
            log(J().s("ev", "out").s("pipe", w[1]).s("hex", hex(s)).t("eof", r.broken()).i("now", g_now));
        }
    }
    else if (c == "ctl") { std::string s = unhex(w[1]); size_t off = 0; for (int g = 0; off < s.size() && g < 10000; g++) { size_t k = g_ctl.write(s.substr(off)); off += k; if (off < s.size()) { runIdle(); readCtl(); if (!k) { advance(1); if (g_ctl.peerGone()) break; } } } log(J().s("ev", "ctlSend").s("hex", w[1]).i("sent", off).i("now", g_now)); }
    else if (c == "spawn") {                      // spawn flags wantP wantT prog cmd cwd env desktop   (UTF-16 hex, '-' empty)
        std::string pl = i32(AgentMsg::StartProcess) + i64(n(1)) + i32(n(2)) + i32(n(3));
        for (int i = 4; i < 9; i++) pl += wstr(i < (int)w.size() ? unhexw(w[i]) : L"");
        std::string f = frame(pl);
        size_t off = 0; for (int g = 0; off < f.size() && g < 10000; g++) { off += g_ctl.write(f.substr(off)); if (off < f.size()) { runIdle(); if (g_ctl.peerGone()) break; } }
        log(J().s("ev", "reqSpawn").i("flags", n(1)).i("now", g_now));
    }
    else if (c == "setsize") { g_ctl.write(frame(i32(AgentMsg::SetSize) + i32(n(1)) + i32(n(2)))); log(J().s("ev", "reqSize").i("c", n(1)).i("r", n(2)).i("now", g_now)); }
    else if (c == "proclist") { g_ctl.write(frame(i32(AgentMsg::GetConsoleProcessList))); log(J().s("ev", "reqList").i("now", g_now)); }
    else if (c == "rdctl") readCtl(w.size() > 1 ? n(1) : SIZE_MAX);
    else if (c == "childfail") g_childFail.push_back(n(1));
    else if (c == "childexit") { if (g_app) killProc(g_app.get(), n(1)); }
    else if (c == "close") { RawEnd &r = pipeByName(w[1]); if (r) { r.close(); log(J().s("ev", "clientClose").s("pipe", w[1]).i("now", g_now)); } }
    else if (c == "killagent") { if (g_agent) killProc(g_agent.get(), n(1)); }
    else if (c == "app") doApp(std::vector<std::string>(w.begin() + 1, w.end()));
    else if (c == "bgapp") {                      // queued on a concurrently scheduled application thread
        g_appThr.q.push_back(std::vector<std::string>(w.begin() + 1, w.end()));
        if (!g_appThr.t) g_appThr.t = spawnThread(g_procs[1].get(), "app", [] {
            for (;;) {
                if (g_appThr.q.empty()) blockUntil([] { return !g_appThr.q.empty(); }, UINT64_MAX, "app");
                Console *cc = con();
                while (cc && cc->frozen) blockUntil([cc] { return !cc->frozen; }, UINT64_MAX, "app-frozen");
                auto o = g_appThr.q.front(); g_appThr.q.pop_front();
                appOp(o);
                yieldNow();
            }
        });
    }
    else if (c == "onapi") {                      // onapi <api> <nth>|* app-op...: run an application operation inside the agent's nth call of an API
        if (w[1] == "none") { g_onApi = nullptr; return; }
        std::string api = w[1]; int nth = atoi(w[2].c_str());
        std::vector<std::string> op(w.begin() + 3, w.end());
        auto prev = g_onApi; auto cnt = std::make_shared<int>(0);
        g_onApi = [prev, api, nth, op, cnt](const char *name) {
            if (prev) prev(name);
            if (api == name && op[0][0] == '!' && g_agent && curProc() == g_agent.get()) {   // a command of the driver that takes no time: !close, !rd, !rdctl, !conn
                if (++*cnt == nth) { auto o = op; o[0].erase(0, 1); command(o); }
            } else if (api == name && g_agent && curProc() == g_agent.get() && ++*cnt == nth) { Console *cc = con(); if (cc && !cc->frozen) appOp(op); else doApp(op); }
        };
    }
    else if (c == "idle") runIdle();
    else if (c == "adv") advance(n(1));
    else if (c == "snap") snap(true);
    else if (c == "stat") snap(false);
    else if (c == "note") log(J().s("ev", "note").s("text", w.size() > 1 ? w[1] : "").i("now", g_now));
    // --- libwinpty
    else if (c == "agentmode") { g_agentMode = w[1]; hookCreate(); }
    else if (c == "agenterr") { g_agentCreateErr = n(1); }
    else if (c == "call") queueCall(n(1), std::vector<std::string>(w.begin() + 2, w.end()));
    else if (c == "waitlib") { bool ok = runUntil([] { return libIdle(); }, w.size() > 1 ? n(1) : 60000); if (!ok) log(J().s("ev", "libStuck").i("now", g_now)); }
    else if (c == "mk") {                         // mk connect [pid] | send hex | frame hex | setup | read | close | die
        const std::string &o = w[1];
        if (o == "connect") { g_ctl = rawConnect(g_ctlName, w.size() > 2 && n(2) ? n(2) : (g_agent ? g_agent->pid : 0)); log(J().s("ev", "mkConnect").t("ok", (bool)g_ctl)); }
        else if (o == "send") { size_t k = g_ctl ? g_ctl.write(unhex(w[2])) : 0; log(J().s("ev", "mkSend").s("hex", w[2]).i("n", k).i("now", g_now)); }
        else if (o == "frame") { std::string f = frame(w.size() > 2 ? unhex(w[2]) : ""); size_t k = g_ctl ? g_ctl.write(f) : 0; log(J().s("ev", "mkFrame").s("hex", w.size() > 2 ? w[2] : "").i("n", k).i("now", g_now)); }
        else if (o == "setup") { if (!g_ctl) return; std::string pl = wstr(L"\\\\.\\pipe\\in-" + widen(w[2])) + wstr(L"\\\\.\\pipe\\out-" + widen(w[2])); if (w.size() > 3 && n(3)) pl += wstr(L"\\\\.\\pipe\\err-" + widen(w[2])); g_ctl.write(frame(pl)); log(J().s("ev", "mkSetup")); }
        else if (o == "handles") {                // reply to a spawn with real handles in the mock agent's table: mk handles <wantP> <wantT>
            auto ch = newProc("child.exe"); g_app = ch;
            int64_t hp = 0, ht = 0;
            if (n(2)) hp = (int64_t)(intptr_t)g_agent->add(ch, 0, "process");
            if (n(3)) { auto t = std::make_shared<ThreadObj>(); t->p = ch.get(); ht = (int64_t)(intptr_t)g_agent->add(t, 0, "thread"); }
            g_ctl.write(frame(i32((int)StartProcessResult::ProcessCreated) + i64(hp) + i64(ht)));
            log(J().s("ev", "mkSpawned").i("pid", ch->pid).i("now", g_now));
        }
        else if (o == "read") { if (g_ctl) { std::string b = g_ctl.read(); g_ctlBuf += b;
            for (;;) { if (g_ctlBuf.size() < 8) break; uint64_t z; memcpy(&z, g_ctlBuf.data(), 8); if (z < 8 || z > (1u << 28)) { log(J().s("ev", "reqBad")); g_ctlBuf.clear(); break; } if (g_ctlBuf.size() < z) break;
                log(J().s("ev", "req").s("hex", hex(g_ctlBuf.substr(8, z - 8))).i("now", g_now)); g_ctlBuf.erase(0, z); }
            log(J().s("ev", "mkRead").i("partial", g_ctlBuf.size()).t("broken", g_ctl.broken())); } }
        else if (o == "answer") {                 // take the next request and prepare the reply: mk answer <variant> [hold] [arg]
            if (!g_ctl) return;
            g_ctlBuf += g_ctl.read();
            uint64_t z = 0;
            if (g_ctlBuf.size() >= 8) memcpy(&z, g_ctlBuf.data(), 8);
            if (z < 8 || z > (1u << 28) || g_ctlBuf.size() < z) { log(J().s("ev", "mkNothing").i("have", g_ctlBuf.size())); return; }
            std::string rq = g_ctlBuf.substr(8, z - 8); g_ctlBuf.erase(0, z);
            const std::string v = w[2]; bool hold = w.size() > 3 && w[3] == "hold"; int arg = w.size() > 4 ? n(4) : 3;
            int32_t kind = -1; if (rq.size() >= 5) memcpy(&kind, &rq[1], 4);
            std::string pl;
            static int base = 5000;
            if (kind == AgentMsg::StartProcess && (v == "good" || v == "extra" || v == "short" || v == "bogus")) {
                int32_t wp = 0, wt = 0; if (rq.size() >= 24) { memcpy(&wp, &rq[15], 4); memcpy(&wt, &rq[20], 4); }
                auto ch = newProc("child.exe"); g_app = ch;
                int64_t hp = 0, ht = 0;
                if (wp) hp = v == "bogus" ? 0x7f3 : (int64_t)(intptr_t)g_agent->add(ch, 0, "process");
                if (wt) { auto t = std::make_shared<ThreadObj>(); t->p = ch.get(); ht = (int64_t)(intptr_t)g_agent->add(t, 0, "thread"); }
                pl = i32((int)StartProcessResult::ProcessCreated) + i64(hp) + (v == "short" ? "" : i64(ht));
                log(J().s("ev", "mkSpawned").i("pid", ch->pid).i("now", g_now));
            } else if (kind == AgentMsg::StartProcess && v == "cpfail") pl = i32((int)StartProcessResult::CreateProcessFailed) + i32(arg);
            else if (kind == AgentMsg::GetConsoleProcessList && v != "wrong") { int k = v == "short" ? arg - 1 : arg; pl = i32(arg); for (int q = 0; q < k; q++) pl += i32(++base); }
            else if (v == "wrong") pl = kind == AgentMsg::StartProcess ? i32(77) + i32(0) : i64(5);
            else if (v == "short") pl = std::string(1, '\0');
            if (v == "extra") pl += i32(9);
            std::string f = frame(pl);
            if (v == "size0") f = std::string(8, '\0');
            if (v == "size7") { uint64_t q = 7; f = std::string((const char *)&q, 8); }
            if (v == "huge") { uint64_t q = ~0ull; f = std::string((const char *)&q, 8) + "xx"; }
            if (v == "hugestr") { std::string q(1, '\2'); uint64_t qq = 1ull << 62; q.append((const char *)&qq, 8); f = frame(q); }
            g_reply += f;
            if (!hold) { size_t k = g_ctl.write(g_reply); g_reply.erase(0, k); }
            log(J().s("ev", "mkAnswer").s("v", v).i("kind", kind).i("left", g_reply.size()).i("now", g_now));
        }
        else if (o == "push") { size_t m = w.size() > 2 ? n(2) : g_reply.size(); size_t k = g_ctl ? g_ctl.write(g_reply.substr(0, m)) : 0; g_reply.erase(0, k); log(J().s("ev", "mkPush").i("n", k).i("now", g_now)); }
        else if (o == "drop") g_reply.clear();
        else if (o == "close") { if (g_ctl) g_ctl.close(); log(J().s("ev", "mkClose").i("now", g_now)); }
        else if (o == "die") { if (g_ctl && n(2) == 0) { /* the process dies: its pipe closes too */ } if (g_agent) { if (g_ctl && w.size() > 2 && w[2] == "pipefirst") g_ctl.close(); killProc(g_agent.get(), 1); if (g_ctl && !(w.size() > 2 && w[2] == "keep")) g_ctl.close(); } log(J().s("ev", "mkDie").i("now", g_now)); }
        else if (o == "agentleft") { size_t k = g_agent ? g_agent->openHandles() : 0; log(J().s("ev", "agentHandles").i("n", k)); }
    }
    else if (c == "libstat") {
        ensureClient();
        std::string k = "["; bool first = true;
        for (auto &kv : g_client->handles) if (!kv.second.closed && kv.second.what.compare(0, 4, "std-")) { if (!first) k += ','; first = false; k += jstr(kv.second.what); }
        log(J().s("ev", "libstat").i("client", g_client->pid).i("handles", g_client->openHandles()).raw("kinds", k + "]").i("dbl", g_client->doubleClose).i("pendingIo", pendingIo()).s("station", station(g_client.get()))
            .t("agentAlive", g_agent && !g_agent->exited).i("agentProcs", g_agent ? g_agent->openHandles("process") + g_agent->openHandles("thread") : 0).t("mock", (bool)g_ctl && g_ctl.end && g_ctl.end->open).t("ctlBroken", g_ctl ? g_ctl.peerGone() : true).i("now", g_now));
    }
    else if (c == "apidump") { std::string r = "["; for (size_t i = 0; i < g_apiLog.size(); i++) { if (i) r += ','; r += jstr(g_apiLog[i]); } log(J().s("ev", "apidump").raw("calls", r + "]")); }
    else { fprintf(stderr, "unknown command %s\n", c.c_str()); _exit(9); }
}

static void onSignal(int sig) {
    // the log is written so that the run-up to the crash can be judged; then the process dies as it would have
    signal(sig, SIG_DFL);
    g_log.push_back(std::string("{\"ev\":\"fatal\",\"why\":\"signal ") + std::to_string(sig) + "\"}");
    writeLog(g_out.c_str());
    raise(sig);
}
static int runScenario(const std::string &id, const std::vector<std::string> &lines, const std::string &outDir) {
    g_out = outDir + "/" + id + ".ndjson";
    uint64_t seed = 1; for (char ch : id) seed = seed * 131 + (unsigned char)ch;
    for (auto &l : lines) if (!l.compare(0, 5, "seed ")) seed = strtoull(l.c_str() + 5, nullptr, 0);
    init(seed);
    g_onFatal = [](const char *) { writeLog(g_out.c_str()); };
    hookCreate();
    for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGALRM, SIGILL}) signal(sg, onSignal);
    for (auto &l : lines) {
        std::istringstream is(l); std::vector<std::string> w; std::string t;
        while (is >> t) w.push_back(t);
        if (w.empty() || w[0][0] == '#' || w[0] == "seed") continue;
        command(w);
    }
    log(J().s("ev", "end").i("now", g_now));
    writeLog(g_out.c_str());
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 5) { fprintf(stderr, "usage: harness AGENT_SO LIB_SO SCENARIOS OUTDIR [jobs] [timeout]\n"); return 2; }
    if (strcmp(argv[1], "-")) { g_agentSo = dlopen(argv[1], RTLD_LAZY | RTLD_GLOBAL); if (!g_agentSo) { fprintf(stderr, "%s\n", dlerror()); return 2; }
        for (const char *nm : {"_Z10agent_mainv", "agent_main"}) if (!agent_main) agent_main = (int (*)())dlsym(g_agentSo, nm);
        if (!agent_main) { fprintf(stderr, "no agent_main\n"); return 2; } }
    if (strcmp(argv[2], "-")) { g_libSo = dlopen(argv[2], RTLD_LAZY | RTLD_LOCAL); if (!g_libSo) { fprintf(stderr, "%s\n", dlerror()); return 2; } loadLib(); }
    if (argc > 7 && strcmp(argv[7], "-")) { void *so = dlopen(argv[7], RTLD_LAZY | RTLD_LOCAL); if (!so) { fprintf(stderr, "%s\n", dlerror()); return 2; }
        for (const char *nm : {"_Z12adapter_mainiPPc", "adapter_main"}) if (!adapter_main) adapter_main = (int (*)(int, char **))dlsym(so, nm);
        if (!adapter_main) { fprintf(stderr, "no adapter_main\n"); return 2; } }
    int jobs = argc > 5 ? atoi(argv[5]) : 8; int tmo = argc > 6 ? atoi(argv[6]) : 60;
    std::vector<std::pair<std::string, std::vector<std::string>>> sc;
    std::ifstream f(argv[3]); std::string l;
    while (std::getline(f, l)) { if (!l.compare(0, 3, "## ")) sc.push_back({l.substr(3), {}}); else if (!sc.empty()) sc.back().second.push_back(l); }
    mkdir(argv[4], 0777);
    std::map<pid_t, size_t> running; size_t next = 0; int bad = 0;
    while (next < sc.size() || !running.empty()) {
        while (next < sc.size() && (int)running.size() < jobs) {
            pid_t p = fork();
            if (p == 0) {
                alarm(tmo);
                int rc = runScenario(sc[next].first, sc[next].second, argv[4]);
                fflush(stdout); fflush(stderr); _exit(rc);
            }
            running[p] = next++;
        }
        int st; pid_t p = wait(&st);
        if (p < 0) break;
        size_t i = running[p]; running.erase(p);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            bad++;
            printf("%s %s %d\n", sc[i].first.c_str(), WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
    }
    return bad ? 1 : 0;
}

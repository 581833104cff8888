// The console, security, desktop and miscellaneous parts of the simulated OS.
#include "sim.h"
#include <stdarg.h>

namespace sim {
DWORD lastErrOf(Thread *t);
std::vector<std::shared_ptr<Console>> g_consoles;
bool g_logConsole = false, g_logInput = true, g_conDirty = false;
extern std::vector<std::string> g_strayOps;

// ------------------------------------------------------------------ screen buffers
void ScreenBuf::init(int nw, int nh, WORD a) {
    w = nw; h = nh; attr = a;
    CHAR_INFO ci; ci.Char.UnicodeChar = L' '; ci.Attributes = a;
    cells.assign((size_t)w * h, ci);
}
void ScreenBuf::resize(int nw, int nh) {
    CHAR_INFO ci; ci.Char.UnicodeChar = L' '; ci.Attributes = attr;
    int drop = 0;
    if (nh < h && curY >= nh) drop = curY - (nh - 1);          // keep the cursor line: rows fall off the top
    std::vector<CHAR_INFO> n((size_t)nw * nh, ci);
    for (int y = 0; y < nh && y + drop < h; y++)
        for (int x = 0; x < nw && x < w; x++) n[(size_t)y * nw + x] = at(x, y + drop);
    cells.swap(n); w = nw; h = nh;
    curY -= drop; if (curX >= w) curX = w - 1; if (curY >= h) curY = h - 1; if (curY < 0) curY = 0;
    int ww = win.Right - win.Left + 1, wh = win.Bottom - win.Top + 1;
    if (drop) { win.Top = std::max(0, win.Top - drop); }
    if (ww > w) ww = w; if (wh > h) wh = h;
    if (win.Left + ww > w) win.Left = w - ww;
    if (win.Top + wh > h) win.Top = h - wh;
    win.Right = win.Left + ww - 1; win.Bottom = win.Top + wh - 1;
}
void ScreenBuf::scroll(int n) {
    CHAR_INFO ci; ci.Char.UnicodeChar = L' '; ci.Attributes = attr;
    cells.erase(cells.begin(), cells.begin() + (size_t)n * w);
    cells.resize((size_t)w * h, ci);
}
void ScreenBuf::scrollWindowTo() {
    int wh = win.Bottom - win.Top + 1, ww = win.Right - win.Left + 1;
    if (curY > win.Bottom) { win.Bottom = curY; win.Top = curY - wh + 1; }
    if (curY < win.Top) { win.Top = curY; win.Bottom = curY + wh - 1; }
    if (curX > win.Right) { win.Right = curX; win.Left = curX - ww + 1; }
    if (curX < win.Left) { win.Left = curX; win.Right = curX + ww - 1; }
}
static void newline(ScreenBuf *b) {
    b->curX = 0;
    if (++b->curY >= b->h) { b->curY = b->h - 1; b->scroll(1); }
}
// overwriting one half of a wide character blanks the other
static void unpair(ScreenBuf *b, int x, int y) {
    CHAR_INFO &c = b->at(x, y);
    int o = (c.Attributes & COMMON_LVB_LEADING_BYTE) ? x + 1 : (c.Attributes & COMMON_LVB_TRAILING_BYTE) ? x - 1 : -1;
    c.Attributes &= ~0x300;
    if (o >= 0 && o < b->w) { CHAR_INFO &d = b->at(o, y); d.Char.UnicodeChar = L' '; d.Attributes &= ~0x300; }
}
void ScreenBuf::putWide(wchar_t c) {
    if (curX + 2 > w) newline(this);
    unpair(this, curX, curY); unpair(this, curX + 1, curY);
    at(curX, curY).Char.UnicodeChar = c; at(curX, curY).Attributes = attr | COMMON_LVB_LEADING_BYTE;
    at(curX + 1, curY).Char.UnicodeChar = c; at(curX + 1, curY).Attributes = attr | COMMON_LVB_TRAILING_BYTE;
    curX += 2; if (curX >= w) newline(this);
    scrollWindowTo();
}
void ScreenBuf::write(const std::wstring &s) {
    for (wchar_t c : s) {
        if (c == L'\r') curX = 0;
        else if (c == L'\n') newline(this);
        else if (c == L'\b') { if (curX) curX--; }
        else if (c == L'\t') { do { unpair(this, curX, curY); at(curX, curY).Char.UnicodeChar = L' '; at(curX, curY).Attributes = attr; if (++curX >= w) { newline(this); break; } } while (curX % 8); }
        else { unpair(this, curX, curY); at(curX, curY).Char.UnicodeChar = c; at(curX, curY).Attributes = attr; if (++curX >= w) newline(this); }
    }
    scrollWindowTo();
}
void ScreenBuf::setCursor(int x, int y) { curX = x; curY = y; scrollWindowTo(); }
void ScreenBuf::fill(int x, int y, int n, wchar_t c, WORD a) {
    for (size_t i = (size_t)y * w + x; n-- > 0 && i < cells.size(); i++) { unpair(this, i % w, i / w); cells[i].Char.UnicodeChar = c; cells[i].Attributes = a; }
}
bool ConIn::signaled() { return !con->input.empty(); }

std::shared_ptr<Console> newConsole() {
    auto c = std::make_shared<Console>();
    c->hwnd = (HWND)(uintptr_t)(0x5000 + g_consoles.size());
    c->active = std::make_shared<ScreenBuf>();
    c->active->label = "primary"; c->active->con = c.get(); c->active->init(80, 300, 7);
    c->bufs.push_back(c->active);
    c->conin = std::make_shared<ConIn>(); c->conin->con = c.get();
    g_consoles.push_back(c);
    return c;
}
Console *consoleOf(Proc *p) { return p->console.get(); }
static Console *byHwnd(HWND h) { size_t i = (uintptr_t)h - 0x5000; return i < g_consoles.size() ? g_consoles[i].get() : nullptr; }
} // namespace sim

using namespace sim;
#define ERR(e) do { self()->lastError = (e); } while (0)
#define FAULT(name, ret) do { DWORD e_ = sim::api(name); if (e_) { ERR(e_); return ret; } } while (0)
#define CP curProc()
template <class T> static T *getObj(HANDLE h) {
    HandleEnt *e = CP->get(h);
    T *t = e ? dynamic_cast<T *>(e->obj.get()) : nullptr;
    if (!t) ERR(ERROR_INVALID_HANDLE);
    return t;
}
// what a console client does to the console, for the trace (the event is written even if the call fails)
static void did(const char *f, ScreenBuf *b, J j = J()) {
    if (!g_logConsole || CP->pid == 1) return;
    g_conDirty = true;
    J q; q.s("ev", "con").s("f", f).s("buf", b ? b->label : "").i("pid", CP->pid).raw("a", j.str());
    log(q);
}
static J rect(const SMALL_RECT &r) { return J().i("l", r.Left).i("t", r.Top).i("r", r.Right).i("b", r.Bottom); }
static void misuse(const char *what) { log(J().s("ev", "consoleMisuse").s("what", what)); }
static int winW(ScreenBuf *b) { return b->win.Right - b->win.Left + 1; }
static int winH(ScreenBuf *b) { return b->win.Bottom - b->win.Top + 1; }

extern "C" {
HWND GetConsoleWindow() { sim::api("GetConsoleWindow"); Console *c = consoleOf(CP); return c ? c->hwnd : nullptr; }
HANDLE GetStdHandle(DWORD n) { return n == STD_INPUT_HANDLE ? CP->stdIn : n == STD_OUTPUT_HANDLE ? CP->stdOut : CP->stdErr; }
BOOL SetStdHandle(DWORD n, HANDLE h) { (n == STD_INPUT_HANDLE ? CP->stdIn : n == STD_OUTPUT_HANDLE ? CP->stdOut : CP->stdErr) = h; return TRUE; }
HANDLE CreateConsoleScreenBuffer(DWORD acc, DWORD, const SECURITY_ATTRIBUTES *sa, DWORD, LPVOID) {
    FAULT("CreateConsoleScreenBuffer", INVALID_HANDLE_VALUE);
    Console *c = consoleOf(CP); if (!c) { ERR(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE; }
    auto b = std::make_shared<ScreenBuf>();
    b->label = "buf" + std::to_string(c->bufs.size()); b->con = c;
    b->init(80, 25, 7);
    c->bufs.push_back(b);
    log(J().s("ev", "newBuffer").s("label", b->label).i("pid", CP->pid).t("inherit", sa && sa->bInheritHandle));
    return CP->add(b, acc, "conout", sa && sa->bInheritHandle);
}
BOOL SetConsoleActiveScreenBuffer(HANDLE h) { FAULT("SetConsoleActiveScreenBuffer", FALSE); auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; did("activate", b); b->con->active = std::static_pointer_cast<ScreenBuf>(b->shared_from_this()); return TRUE; }
BOOL GetConsoleScreenBufferInfo(HANDLE h, PCONSOLE_SCREEN_BUFFER_INFO i) {
    FAULT("GetConsoleScreenBufferInfo", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE;
    i->dwSize.X = b->w; i->dwSize.Y = b->h; i->dwCursorPosition.X = b->curX; i->dwCursorPosition.Y = b->curY;
    i->wAttributes = b->attr; i->srWindow = b->win;
    i->dwMaximumWindowSize.X = std::min(b->w, g_os.largestX); i->dwMaximumWindowSize.Y = std::min(b->h, g_os.largestY);
    return TRUE;
}
BOOL GetConsoleCursorInfo(HANDLE h, PCONSOLE_CURSOR_INFO i) { FAULT("GetConsoleCursorInfo", FALSE); auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; i->dwSize = b->curSize; i->bVisible = b->curVis; return TRUE; }
BOOL SetConsoleCursorInfo(HANDLE h, const CONSOLE_CURSOR_INFO *i) { FAULT("SetConsoleCursorInfo", FALSE); auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; b->curSize = i->dwSize; b->curVis = i->bVisible; return TRUE; }
COORD GetLargestConsoleWindowSize(HANDLE) { sim::api("GetLargestConsoleWindowSize"); COORD c; c.X = g_os.largestX; c.Y = g_os.largestY; return c; }
BOOL SetConsoleCursorPosition(HANDLE h, COORD c) {
    FAULT("SetConsoleCursorPosition", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; did("cursor", b);
    if (c.X < 0 || c.Y < 0 || c.X >= b->w || c.Y >= b->h) { ERR(ERROR_INVALID_PARAMETER); return FALSE; }
    b->setCursor(c.X, c.Y);
    return TRUE;
}
BOOL SetConsoleWindowInfo(HANDLE h, WINBOOL abs, const SMALL_RECT *r) {
    FAULT("SetConsoleWindowInfo", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE;
    SMALL_RECT n = *r;
    if (!abs) { n.Left += b->win.Left; n.Right += b->win.Right; n.Top += b->win.Top; n.Bottom += b->win.Bottom; }
    if (n.Right < n.Left || n.Bottom < n.Top || n.Left < 0 || n.Top < 0 || n.Right >= b->w || n.Bottom >= b->h ||
        n.Right - n.Left + 1 > g_os.largestX || n.Bottom - n.Top + 1 > g_os.largestY) { ERR(ERROR_INVALID_PARAMETER); return FALSE; }
    b->win = n;
    did("win", b, rect(n));
    return TRUE;
}
BOOL SetConsoleScreenBufferSize(HANDLE h, COORD s) {
    FAULT("SetConsoleScreenBufferSize", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE;
    if (b->con->frozen) did("bufsize", b, J().i("w", s.X).i("h", s.Y));
    if (b->con->frozen && b->con->active.get() == b) misuse("buffer resized during a selection");
    if (s.X < 1 || s.Y < 1 || s.X < winW(b) || s.Y < winH(b) || s.X < g_os.minCols) { ERR(ERROR_INVALID_PARAMETER); return FALSE; }
    did("bufsize", b, J().i("w", s.X).i("h", s.Y));
    b->resize(s.X, s.Y);
    return TRUE;
}
BOOL SetConsoleTextAttribute(HANDLE h, WORD a) { FAULT("SetConsoleTextAttribute", FALSE); auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; did("attr", b); b->attr = a; return TRUE; }
BOOL FillConsoleOutputCharacterW(HANDLE h, wchar_t c, DWORD n, COORD at, LPDWORD wr) {
    FAULT("FillConsoleOutputCharacterW", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; did("write", b);
    if (at.X < 0 || at.Y < 0 || at.X >= b->w || at.Y >= b->h) { *wr = 0; return TRUE; }
    size_t i = (size_t)at.Y * b->w + at.X, k = 0;
    for (; k < n && i < b->cells.size(); i++, k++) { b->cells[i].Char.UnicodeChar = c; b->cells[i].Attributes &= ~0x300; }
    *wr = k; return TRUE;
}
BOOL FillConsoleOutputAttribute(HANDLE h, WORD a, DWORD n, COORD at, LPDWORD wr) {
    FAULT("FillConsoleOutputAttribute", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; did("write", b);
    if (at.X < 0 || at.Y < 0 || at.X >= b->w || at.Y >= b->h) { *wr = 0; return TRUE; }
    size_t i = (size_t)at.Y * b->w + at.X, k = 0;
    for (; k < n && i < b->cells.size(); i++, k++) b->cells[i].Attributes = a;
    *wr = k; return TRUE;
}
BOOL ReadConsoleOutputW(HANDLE h, PCHAR_INFO out, COORD sz, COORD at, PSMALL_RECT r) {
    FAULT("ReadConsoleOutputW", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; did("read", b, rect(*r));
    bool oor = r->Left < 0 || r->Top < 0 || r->Right >= b->w || r->Bottom >= b->h || r->Right < r->Left || r->Bottom < r->Top;
    if (oor && !g_os.newConsole) misuse("out-of-range read (crashes the caller before Windows 10)");
    if (r->Right - r->Left + 1 > sz.X - at.X || r->Bottom - r->Top + 1 > sz.Y - at.Y) misuse("read region larger than the buffer");
    bool old = g_os.major < 6 || (g_os.major == 6 && g_os.minor < 2);
    if (old && (size_t)sz.X * sz.Y * 4 > 0x10000 - 0x200) { misuse("read larger than the RPC buffer"); ERR(ERROR_NOT_ENOUGH_MEMORY); return FALSE; }
    for (int y = r->Top; y <= r->Bottom && y < b->h; y++)
        for (int x = r->Left; x <= r->Right && x < b->w; x++)
            if (x >= 0 && y >= 0 && y - r->Top + at.Y < sz.Y && x - r->Left + at.X < sz.X)
                out[(size_t)(y - r->Top + at.Y) * sz.X + (x - r->Left + at.X)] = b->at(x, y);
    return TRUE;
}
BOOL WriteConsoleOutputW(HANDLE h, const CHAR_INFO *in, COORD sz, COORD at, PSMALL_RECT r) {
    FAULT("WriteConsoleOutputW", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE; did("write", b, rect(*r));
    for (int y = r->Top; y <= r->Bottom && y < b->h; y++)
        for (int x = r->Left; x <= r->Right && x < b->w; x++)
            if (x >= 0 && y >= 0) b->at(x, y) = in[(size_t)(y - r->Top + at.Y) * sz.X + (x - r->Left + at.X)];
    return TRUE;
}
BOOL GetConsoleMode(HANDLE h, LPDWORD m) {
    FAULT("GetConsoleMode", FALSE);
    HandleEnt *e = CP->get(h);
    if (e) if (auto *b = dynamic_cast<ScreenBuf *>(e->obj.get())) { *m = b->mode; return TRUE; }
    if (e) if (auto *i = dynamic_cast<ConIn *>(e->obj.get())) { *m = i->con->inMode; return TRUE; }
    ERR(ERROR_INVALID_HANDLE); return FALSE;
}
BOOL SetConsoleMode(HANDLE h, DWORD m) {
    FAULT("SetConsoleMode", FALSE);
    HandleEnt *e = CP->get(h);
    if (e) if (auto *b = dynamic_cast<ScreenBuf *>(e->obj.get())) { b->mode = m; return TRUE; }
    if (e) if (auto *i = dynamic_cast<ConIn *>(e->obj.get())) { i->con->inMode = m; return TRUE; }
    ERR(ERROR_INVALID_HANDLE); return FALSE;
}
UINT GetConsoleCP() { sim::api("GetConsoleCP"); return consoleOf(CP) ? consoleOf(CP)->cp : 0; }
UINT GetConsoleOutputCP() { sim::api("GetConsoleOutputCP"); return consoleOf(CP) ? consoleOf(CP)->outCp : 0; }
DWORD GetConsoleTitleW(LPWSTR b, DWORD n) {
    FAULT("GetConsoleTitleW", 0);
    auto &t = consoleOf(CP)->title;
    // XP: truncated length, no terminator when empty; later: the full length.
    bool xp = g_os.major < 6, bytes = g_os.major == 6 && g_os.minor < 2;
    DWORD cap = bytes ? n / 2 : n;
    DWORD k = std::min<DWORD>(t.size(), cap ? cap - 1 : 0);
    memcpy(b, t.c_str(), k * 2);
    if (!(xp && t.empty()) && cap) b[k] = 0;
    return xp ? k : t.size();
}
BOOL SetConsoleTitleW(LPCWSTR s) { FAULT("SetConsoleTitleW", FALSE); consoleOf(CP)->title = s; log(J().s("ev", "setTitle").w("title", s)); return TRUE; }
DWORD GetConsoleProcessList(LPDWORD out, DWORD n) {
    FAULT("GetConsoleProcessList", 0);
    Console *c = consoleOf(CP); if (!c) { ERR(ERROR_INVALID_HANDLE); return 0; }
    if (!out || !n) { ERR(ERROR_INVALID_PARAMETER); return 0; }
    if (g_onProcList) g_onProcList(c);
    if (c->procs.size() > n) return c->procs.size();
    for (size_t i = 0; i < c->procs.size(); i++) out[i] = c->procs[i];
    return c->procs.size();
}
BOOL GenerateConsoleCtrlEvent(DWORD ev, DWORD grp) {
    FAULT("GenerateConsoleCtrlEvent", FALSE);
    Console *c = consoleOf(CP);
    log(J().s("ev", "ctrlEvent").i("type", ev).i("group", grp).t("attached", c).i("now", g_now));
    if (!c) { ERR(ERROR_INVALID_HANDLE); return FALSE; }
    if (ev == CTRL_C_EVENT && grp != 0) return TRUE;                        // Ctrl-C cannot be limited to a group: nobody gets it
    auto v = c->procs;
    for (DWORD pid : v) {                                                   // what simulated applications do with it is not modelled
        auto it = g_procs.find(pid); if (it == g_procs.end() || !it->second->isAgent) continue;
        Proc *p = it->second.get();
        if (ev == CTRL_C_EVENT && p->ignoreCtrlC) continue;
        bool done = false;
        for (size_t i = p->ctrlHandlers.size(); !done && i-- > 0;) done = ((PHANDLER_ROUTINE)p->ctrlHandlers[i])(ev);
        if (!done) { log(J().s("ev", "ctrlDeath").i("pid", pid)); killProc(p, 0xC000013A); }
    }
    return TRUE;
}
BOOL SetConsoleCtrlHandler(PHANDLER_ROUTINE h, WINBOOL add) {
    FAULT("SetConsoleCtrlHandler", FALSE);
    log(J().s("ev", "ctrlHandler").t("null", !h).t("add", add));
    auto &v = CP->ctrlHandlers;
    if (!h) CP->ignoreCtrlC = add;
    else if (add) v.push_back((void *)h);
    else for (size_t i = v.size(); i-- > 0;) if (v[i] == (void *)h) { v.erase(v.begin() + i); break; }
    return TRUE;
}
BOOL WriteConsoleInputW(HANDLE h, const INPUT_RECORD *r, DWORD n, LPDWORD wr) {
    FAULT("WriteConsoleInputW", FALSE);
    auto *ci = getObj<ConIn>(h); if (!ci) return FALSE;
    for (DWORD i = 0; i < n; i++) {
        const INPUT_RECORD &x = r[i];
        ci->con->input.push_back(x);
        if (!g_logInput) continue;
        if (x.EventType == KEY_EVENT) {
            auto &k = x.Event.KeyEvent;
            log(J().s("ev", "key").t("down", k.bKeyDown).i("rep", k.wRepeatCount).i("vk", k.wVirtualKeyCode).i("sc", k.wVirtualScanCode).i("ch", k.uChar.UnicodeChar).i("st", k.dwControlKeyState).i("now", g_now));
        } else if (x.EventType == MOUSE_EVENT) {
            auto &m = x.Event.MouseEvent;
            log(J().s("ev", "mouse").i("x", m.dwMousePosition.X).i("y", m.dwMousePosition.Y).i("btn", m.dwButtonState & 0xffff).i("wheel", (short)(m.dwButtonState >> 16)).i("flags", m.dwEventFlags).i("st", m.dwControlKeyState).i("now", g_now));
        } else if (x.EventType == WINDOW_BUFFER_SIZE_EVENT) {
            auto *ab = ci->con->active.get(); log(J().s("ev", "sizeEvent").i("w", x.Event.WindowBufferSizeEvent.dwSize.X).i("h", x.Event.WindowBufferSizeEvent.dwSize.Y).i("winw", winW(ab)).i("winh", winH(ab)).i("bufw", ab->w).i("bufh", ab->h).i("now", g_now));
        } else log(J().s("ev", "otherInput").i("type", x.EventType));
    }
    *wr = n;
    return TRUE;
}
BOOL ReadConsoleInputW(HANDLE h, PINPUT_RECORD r, DWORD n, LPDWORD rd) {
    FAULT("ReadConsoleInputW", FALSE);
    auto *ci = getObj<ConIn>(h); if (!ci) return FALSE;
    Console *c = ci->con;
    if (c->input.empty()) blockUntil([c] { return !c->input.empty(); }, UINT64_MAX, "ReadConsoleInput");
    DWORD k = 0;
    while (k < n && !c->input.empty()) { r[k++] = c->input.front(); c->input.pop_front(); }
    *rd = k; return TRUE;
}
BOOL GetNumberOfConsoleInputEvents(HANDLE h, LPDWORD n) { auto *ci = getObj<ConIn>(h); if (!ci) return FALSE; *n = ci->con->input.size(); return TRUE; }
UINT GetDoubleClickTime() { return 500; }

static void unfreeze(Console *c) {
    if (!c->frozen) return;
    c->frozen = false; c->unfreezes++;
    if (c->frozenByMark && !g_os.newConsole) { c->active->curX = c->savedX; c->active->curY = c->savedY; }
    while (!c->frozen && !c->pendingOps.empty()) { auto op = c->pendingOps.front(); c->pendingOps.pop_front(); op(); }
}
LRESULT SendMessageW(HWND w, UINT msg, WPARAM wp, LPARAM lp) {
    sim::api("SendMessageW");
    Console *c = byHwnd(w); if (!c) { misuse("message to an unknown window"); return 0; }
    if (msg == WM_SYSCOMMAND && (wp == 0xFFF2 || wp == 0xFFF5)) {
        did(wp == 0xFFF2 ? "mark" : "all", nullptr);
        if (c->frozen) { misuse("selection started while selecting"); return 0; }
        c->frozen = true; c->frozenByMark = wp == 0xFFF2; c->freezes++;
        if (c->frozenByMark && !g_os.newConsole) { c->savedX = c->active->curX; c->savedY = c->active->curY; c->active->curX = c->active->win.Left; c->active->curY = c->active->win.Top; }
    } else if (msg == WM_CHAR && wp == 27) {
        did("esc", nullptr);
        if (!c->frozen) { misuse("escape sent with no selection: the application would read it"); return 0; }
        unfreeze(c);
    } else if ((msg == WM_KEYDOWN || msg == WM_KEYUP) && g_logInput) {
        log(J().s("ev", "keyMsg").t("down", msg == WM_KEYDOWN).i("vk", wp).i("sc", (lp >> 16) & 0xff).i("rep", lp & 0xffff).i("top", (unsigned long)(lp & 0xffffffff) >> 30).t("frozen", c->frozen).i("now", g_now));
    } else { did("message", nullptr, J().i("msg", msg).i("wp", wp)); misuse("unexpected window message"); }
    return 0;
}
LRESULT SendMessageA(HWND w, UINT m, WPARAM wp, LPARAM lp) { return SendMessageW(w, m, wp, lp); }
BOOL PostMessageW(HWND w, UINT msg, WPARAM, LPARAM) {
    FAULT("PostMessageW", FALSE);
    Console *c = byHwnd(w);
    if (g_logConsole) did("post", nullptr, J().i("msg", msg));
    log(J().s("ev", "postMessage").i("msg", msg).t("known", c).t("frozen", c && c->frozen).i("pid", CP->pid).i("now", g_now));
    if (c && msg == WM_CLOSE && !c->closing) {
        c->closing = true;
        auto sp = c->shared_from_this();
        Proc *drv = g_procs[1].get();
        spawnThread(drv, "csrss", [sp] {
            uint64_t until = g_now + g_os.closeDelay;
            blockUntil([] { return false; }, until, "console close");
            if (g_os.closeHangs) return;
            auto v = sp->procs;
            for (DWORD pid : v) { auto it = g_procs.find(pid); if (it != g_procs.end()) killProc(it->second.get(), 0xC000013A); }
        });
    }
    return TRUE;
}
BOOL PostMessageA(HWND w, UINT m, WPARAM wp, LPARAM lp) { return PostMessageW(w, m, wp, lp); }

// US keyboard layout
static const struct { const char *s; int vk; } kKeys[] = {
    {"0)", '0'}, {"1!", '1'}, {"2@", '2'}, {"3#", '3'}, {"4$", '4'}, {"5%", '5'}, {"6^", '6'}, {"7&", '7'}, {"8*", '8'}, {"9(", '9'},
    {";:", 0xBA}, {"=+", 0xBB}, {",<", 0xBC}, {"-_", 0xBD}, {".>", 0xBE}, {"/?", 0xBF}, {"`~", 0xC0}, {"[{", 0xDB}, {"\\|", 0xDC}, {"]}", 0xDD}, {"'\"", 0xDE}};
static const struct { WCHAR c; int vk; } kGerman[] = {
    {'@', 0x651}, {0x20ac, 0x645}, {'{', 0x637}, {'[', 0x638}, {']', 0x639}, {'}', 0x630}, {'\\', 0x6db}, {'~', 0x6bb}, {'|', 0x6e2}, {0xb2, 0x632}, {0xb3, 0x633}, {0xb5, 0x64d},
    {0xf6, 0xc0}, {0xd6, 0x1c0}, {0xe4, 0xde}, {0xc4, 0x1de}, {0xfc, 0xba}, {0xdc, 0x1ba}, {0xdf, 0xdb}, {'z', 'Y'}, {'y', 'Z'}, {'Z', 'Y' | 0x100}, {'Y', 'Z' | 0x100}, {'"', 0x132}, {'/', 0x137}, {'<', 0xe2}, {0x1b, 0x1b}};
SHORT VkKeyScanW(WCHAR c) {
    if (g_os.german) for (auto &k : kGerman) if (k.c == c) return k.vk;
    if (c >= 'a' && c <= 'z') return c - 32;
    if (c >= 'A' && c <= 'Z') return c | 0x100;
    if (c == ' ') return 0x20;
    if (c == '\r') return 0x0d; if (c == '\t') return 0x09; if (c == '\b') return 0x08; if (c == 0x1b) return 0x1b;
    if (c == 0x7f) return 0x08 | 0x200; if (c == '\n') return 0x0d | 0x200;
    if (c >= 1 && c <= 26) return ('A' + c - 1) | 0x200;
    if (c == 0x1c) return 0xDC | 0x200; if (c == 0x1d) return 0xDD | 0x200;
    if (c == 0x1e) return '6' | 0x300; if (c == 0x1f) return 0xBD | 0x300; if (c == 0) return '2' | 0x300;
    if (c < 128) for (auto &k : kKeys) { if (k.s[0] == c) return k.vk; if (k.s[1] == c) return k.vk | 0x100; }
    return -1;
}
UINT MapVirtualKeyW(UINT vk, UINT t) {
    if (t != 0) return 0;
    static const char *rows[] = {"1234567890\xBD\xBB", "QWERTYUIOP\xDB\xDD", "ASDFGHJKL\xBA\xDE\xC0", "\xDCZXCVBNM\xBC\xBE\xBF"};
    static const int base[] = {2, 16, 30, 43};
    for (int r = 0; r < 4; r++) for (int i = 0; rows[r][i]; i++) if ((unsigned char)rows[r][i] == vk) return base[r] + i;
    switch (vk) {
        case VK_ESCAPE: return 1; case VK_BACK: return 14; case VK_TAB: return 15; case VK_RETURN: return 28; case VK_CONTROL: return 29;
        case VK_SHIFT: return 42; case VK_MENU: return 56; case VK_SPACE: return 57; case VK_CAPITAL: return 58;
        case VK_HOME: return 71; case VK_UP: return 72; case VK_PRIOR: return 73; case VK_LEFT: return 75; case VK_CLEAR: return 76; case VK_RIGHT: return 77;
        case VK_END: return 79; case VK_DOWN: return 80; case VK_NEXT: return 81; case VK_INSERT: return 82; case VK_DELETE: return 83;
        case VK_F11: return 87; case VK_F12: return 88; case VK_SUBTRACT: return 74; case VK_ADD: return 78; case VK_MULTIPLY: return 55; case VK_DIVIDE: return 53;
    }
    if (vk >= VK_F1 && vk <= VK_F10) return 59 + vk - VK_F1;
    if (vk >= VK_F13 && vk <= VK_F23) return 100 + vk - VK_F13;
    if (vk == VK_F24) return 118;
    if (vk >= VK_NUMPAD0 && vk <= VK_NUMPAD9) { static const int np[] = {82, 79, 80, 81, 75, 76, 77, 71, 72, 73}; return np[vk - VK_NUMPAD0]; }
    return 0;
}

// fonts
struct FI { DWORD n; COORD sz; };
struct FIX { ULONG cb; DWORD n; COORD sz; UINT fam, wt; WCHAR face[32]; };
static FIX g_font = {sizeof(FIX), 0, {8, 12}, 0x30, 400, L"Terminal"};
static BOOL simSetFontEx(HANDLE h, BOOL, FIX *f) {
    FAULT("SetCurrentConsoleFontEx", FALSE);
    auto *b = getObj<ScreenBuf>(h); if (!b) return FALSE;
    did("font", b);
    if (b->con->frozen) misuse("font changed during a selection");
    g_font = *f; return TRUE;
}
static BOOL simGetFontEx(HANDLE h, BOOL, FIX *f) { FAULT("GetCurrentConsoleFontEx", FALSE); *f = g_font; return TRUE; }
static BOOL simGetFont(HANDLE, BOOL, FI *f) { f->n = g_font.n; f->sz = g_font.sz; return TRUE; }
static COORD simGetFontSize(HANDLE, DWORD n) { COORD c = {0, 0}; if (n < 3) { c.X = 4 + n; c.Y = 6 + n; } return c; }
static BOOL simSetFont(HANDLE h, DWORD n) { auto *b = getObj<ScreenBuf>(h); did("font", b); if (b && b->con->frozen) misuse("font changed during a selection"); g_font.n = n; return TRUE; }
static DWORD simNumFonts() { return 3; }

// randomness: never repeats within a run
static int g_randCalls = 0;
static BYTE simRtlGenRandom(void *b, ULONG n) { DWORD e = sim::api("RtlGenRandom"); if (e) { ERR(e); return 0; } g_randCalls++; for (ULONG i = 0; i < n; i++) ((uint8_t *)b)[i] = rnd(256); return 1; }
BOOL CryptAcquireContextW(HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD) { FAULT("CryptAcquireContextW", FALSE); *p = 1; return TRUE; }
BOOL CryptGenRandom(HCRYPTPROV, DWORD n, BYTE *b) { FAULT("CryptGenRandom", FALSE); for (DWORD i = 0; i < n; i++) b[i] = rnd(256); return TRUE; }
BOOL CryptReleaseContext(HCRYPTPROV, DWORD) { return TRUE; }

// version.dll
static DWORD simVerSize(LPCWSTR, LPDWORD h) { if (h) *h = 0; return sizeof(VS_FIXEDFILEINFO); }
static BOOL simVerInfo(LPCWSTR, DWORD, DWORD n, LPVOID b) { memset(b, 0, n); return TRUE; }
static BOOL simVerQuery(LPCVOID b, LPCWSTR, LPVOID *o, UINT *n) {
    static VS_FIXEDFILEINFO v; v.dwSignature = 0xFEEF04BD; v.dwFileVersionMS = v.dwProductVersionMS = g_os.major << 16 | g_os.minor; v.dwFileVersionLS = v.dwProductVersionLS = g_os.build << 16;
    *o = &v; *n = sizeof v; return TRUE;
}

// ------------------------------------------------------------------ security
BOOL OpenThreadToken(HANDLE, DWORD, WINBOOL, PHANDLE h) { DWORD e = sim::api("OpenThreadToken"); ERR(e ? e : ERROR_NO_TOKEN); return FALSE; }
BOOL OpenProcessToken(HANDLE, DWORD, PHANDLE h) { FAULT("OpenProcessToken", FALSE); *h = CP->add(std::make_shared<Token>(), 0, "token"); return TRUE; }
static SID g_ownerSid = {1, 1, {{0, 0, 0, 0, 0, 5}}, {1001}};
BOOL GetTokenInformation(HANDLE h, TOKEN_INFORMATION_CLASS c, LPVOID b, DWORD n, PDWORD need) {
    FAULT("GetTokenInformation", FALSE);
    if (!getObj<Token>(h)) return FALSE;
    *need = sizeof(TOKEN_OWNER) + sizeof(SID);
    if (n < *need) { ERR(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    ((TOKEN_OWNER *)b)->Owner = (char *)b + sizeof(TOKEN_OWNER);
    memcpy(((TOKEN_OWNER *)b)->Owner, &g_ownerSid, sizeof(SID));
    if (c != TokenOwner) ((SID *)((TOKEN_OWNER *)b)->Owner)->SubAuthority[0] = 1002;
    return TRUE;
}
BOOL AllocateAndInitializeSid(PSID_IDENTIFIER_AUTHORITY a, BYTE n, DWORD s0, DWORD s1, DWORD s2, DWORD s3, DWORD s4, DWORD s5, DWORD s6, DWORD s7, PSID *out) {
    FAULT("AllocateAndInitializeSid", FALSE);
    SID *s = (SID *)calloc(1, sizeof(SID) + 64);
    s->Revision = 1; s->SubAuthorityCount = n; s->IdentifierAuthority = *a;
    DWORD v[] = {s0, s1, s2, s3, s4, s5, s6, s7};
    memcpy(s->SubAuthority, v, n * 4);
    *out = s; return TRUE;
}
PVOID FreeSid(PSID s) { free(s); return nullptr; }
static std::string sidText(PSID p) {
    SID *s = (SID *)p;
    std::string r = "S-1-" + std::to_string(s->IdentifierAuthority.Value[5]);
    for (int i = 0; i < s->SubAuthorityCount; i++) r += "-" + std::to_string(s->SubAuthority[i]);
    if (r == "S-1-5-1001") r = "OWNER"; if (r == "S-1-5-18") r = "SYSTEM"; if (r == "S-1-5-32-544") r = "ADMINS"; if (r == "S-1-1-0") r = "EVERYONE";
    return r;
}
struct FakeAcl { ACL acl; char text[1000]; };
DWORD SetEntriesInAclW(ULONG n, PEXPLICIT_ACCESSW e, PACL old, PACL *out) {
    DWORD fe = sim::api("SetEntriesInAclW"); if (fe) return fe;
    FakeAcl *a = (FakeAcl *)calloc(1, sizeof(FakeAcl));
    std::set<std::string> items;
    for (ULONG i = 0; i < n; i++) {
        char b[200];
        snprintf(b, sizeof b, "%s:%s:%s", e[i].grfAccessMode == SET_ACCESS || e[i].grfAccessMode == GRANT_ACCESS ? "allow" : "other",
                 e[i].grfAccessPermissions == GENERIC_ALL ? "all" : std::to_string(e[i].grfAccessPermissions).c_str(), sidText(e[i].Trustee.ptstrName).c_str());
        items.insert(b);
    }
    std::string t; for (auto &s : items) { if (!t.empty()) t += ','; t += s; }
    snprintf(a->text, sizeof a->text, "%s", t.c_str());
    a->acl.AclRevision = 2; a->acl.AclSize = sizeof(FakeAcl);
    *out = &a->acl; return 0;
}
BOOL InitializeSecurityDescriptor(PSECURITY_DESCRIPTOR p, DWORD) { FAULT("InitializeSecurityDescriptor", FALSE); memset(p, 0, sizeof(SECURITY_DESCRIPTOR)); ((SECURITY_DESCRIPTOR *)p)->Revision = 1; return TRUE; }
BOOL SetSecurityDescriptorDacl(PSECURITY_DESCRIPTOR p, WINBOOL present, PACL d, WINBOOL def) { FAULT("SetSecurityDescriptorDacl", FALSE); auto *s = (SECURITY_DESCRIPTOR *)p; s->Control = present ? SE_DACL_PRESENT : 0; s->Dacl = d; return TRUE; }
DWORD GetSecurityInfo(HANDLE, SE_OBJECT_TYPE, SECURITY_INFORMATION, PSID *, PSID *, PACL *, PACL *, PSECURITY_DESCRIPTOR *) { return ERROR_NOT_SUPPORTED; }

// ------------------------------------------------------------------ window stations and desktops
HWINSTA GetProcessWindowStation() { DWORD e = sim::api("GetProcessWindowStation"); if (e) { ERR(e); return nullptr; } return CP->station; }
HWINSTA CreateWindowStationW(LPCWSTR, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) {
    DWORD e = sim::api("CreateWindowStationW"); if (e) { ERR(e); return nullptr; }
    static int n; auto w = std::make_shared<Winsta>(); w->name = L"Service-0x0-" + widen(std::to_string(++n)) + L"$";
    log(J().s("ev", "newStation").i("pid", CP->pid));
    return (HWINSTA)CP->add(w, 0, "winsta");
}
BOOL SetProcessWindowStation(HWINSTA h) { FAULT("SetProcessWindowStation", FALSE); auto *w = getObj<Winsta>((HANDLE)h); if (!w) return FALSE; CP->station = h; log(J().s("ev", "setStation").i("pid", CP->pid).w("name", w->name)); return TRUE; }
BOOL CloseWindowStation(HWINSTA h) {
    FAULT("CloseWindowStation", FALSE);
    HandleEnt *e = CP->get((HANDLE)h);
    if (!e || !dynamic_cast<Winsta *>(e->obj.get())) { log(J().s("ev", "badClose").i("pid", CP->pid).t("double", false)); ERR(ERROR_INVALID_HANDLE); return FALSE; }
    if (!e->what.compare(0, 4, "std-")) log(J().s("ev", "badClose").i("pid", CP->pid).t("double", false));
    if (CP->station == h) { ERR(ERROR_BUSY); return FALSE; }
    e->closed = true; e->obj->refs--; return TRUE;
}
HDESK CreateDesktopW(LPCWSTR name, LPCWSTR, LPDEVMODEW, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) {
    DWORD e = sim::api("CreateDesktopW"); if (e) { ERR(e); return nullptr; }
    auto d = std::make_shared<Desktop>(); d->name = name; auto *he = CP->get((HANDLE)CP->station); d->sta = he ? he->obj : nullptr;
    log(J().s("ev", "newDesktop").i("pid", CP->pid).w("name", name).w("station", he ? ((Winsta *)he->obj.get())->name : L""));
    return (HDESK)CP->add(d, 0, "desktop");
}
BOOL CloseDesktop(HDESK h) {
    FAULT("CloseDesktop", FALSE);
    HandleEnt *e = CP->get((HANDLE)h);
    if (!e || !dynamic_cast<Desktop *>(e->obj.get())) { log(J().s("ev", "badClose").i("pid", CP->pid).t("double", false)); ERR(ERROR_INVALID_HANDLE); return FALSE; }
    if (!e->what.compare(0, 4, "std-")) log(J().s("ev", "badClose").i("pid", CP->pid).t("double", false));
    e->closed = true; e->obj->refs--; return TRUE;
}
HDESK GetThreadDesktop(DWORD) { DWORD e = sim::api("GetThreadDesktop"); if (e) { ERR(e); return nullptr; } return CP->desktop; }
BOOL GetUserObjectInformationW(HANDLE h, int, PVOID b, DWORD n, LPDWORD need) {
    FAULT("GetUserObjectInformationW", FALSE);
    HandleEnt *e = CP->get(h); if (!e) { ERR(ERROR_INVALID_HANDLE); return FALSE; }
    std::wstring s; if (auto *w = dynamic_cast<Winsta *>(e->obj.get())) s = w->name; else if (auto *d = dynamic_cast<Desktop *>(e->obj.get())) s = d->name;
    DWORD k = (s.size() + 1) * 2; if (need) *need = k;
    if (n < k) { ERR(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    memcpy(b, s.c_str(), k); return TRUE;
}
} // extern "C"

namespace sim {
std::function<void(Console *)> g_onProcList;
void logProcs(Console *c) {
    std::string v = "[";
    for (size_t i = 0; i < c->procs.size(); i++) { if (i) v += ','; v += std::to_string(c->procs[i]); }
    log(J().s("ev", "conProcs").raw("pids", v + "]").i("now", g_now));
}
std::string describeSd(const void *p) {
    auto *s = (const SECURITY_DESCRIPTOR *)p;
    if (!(s->Control & SE_DACL_PRESENT)) return "no-dacl";
    if (!s->Dacl) return "null-dacl";
    return ((FakeAcl *)s->Dacl)->text;
}
extern "C" WINBOOL GetNamedPipeClientProcessId(HANDLE, PULONG);
FARPROC getProc(const std::string &m, const std::string &n) {
    auto it = g_extraProcs.find(n); if (it != g_extraProcs.end()) return (FARPROC)it->second;
    if (n == "SystemFunction036") return g_os.crypt ? (FARPROC)simRtlGenRandom : nullptr;
    if (n == "GetNamedPipeClientProcessId") return g_os.pidApi ? (FARPROC)::GetNamedPipeClientProcessId : nullptr;
    if (g_os.fontApi) {
        if (n == "GetCurrentConsoleFontEx") return (FARPROC)simGetFontEx;
        if (n == "SetCurrentConsoleFontEx") return (FARPROC)simSetFontEx;
    }
    if (n == "GetCurrentConsoleFont") return (FARPROC)simGetFont;
    if (n == "GetConsoleFontSize") return (FARPROC)simGetFontSize;
    if (n == "SetConsoleFont") return (FARPROC)simSetFont;
    if (n == "GetNumberOfConsoleFonts") return (FARPROC)simNumFonts;
    if (n == "GetFileVersionInfoSizeW") return (FARPROC)simVerSize;
    if (n == "GetFileVersionInfoW") return (FARPROC)simVerInfo;
    if (n == "VerQueryValueW") return (FARPROC)simVerQuery;
    self()->lastError = ERROR_PROC_NOT_FOUND;
    return nullptr;
}
} // namespace sim

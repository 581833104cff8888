#pragma once
#include "sim.h"
namespace sim {
struct Tty {
    std::deque<char> in; bool eof = false; int inErr = 0; size_t maxRead = 0;
    size_t room[3] = {0, SIZE_MAX, SIZE_MAX}, done[3] = {0, 0, 0}; int outErr[3] = {0, 0, 0}; size_t maxWrite = 0;
    bool tty[3] = {true, true, true}, shared = false;
    int cols = 80, rows = 25;
    uint64_t eintr = 0, yield = 0; bool noRestart = false; size_t pipeCap = 65536;
    unsigned iflag = 0x4502, oflag = 5, cflag = 0xbf, lflag = 0x800b;
    std::set<std::string> exec;
    Thread *interrupted = nullptr;
    std::map<std::string, std::string> env, files;
};
extern Tty g_tty;
extern Proc *g_adapter;
void ttySignal();
}

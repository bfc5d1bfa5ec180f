// Simulated kernel for a jsonstroll "machine": clock, files, pipes, terminal, signals, processes.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <memory>
#include <cstdint>
#include <cstdio>
#include <csignal>
#include <termios.h>
#include "term.hh"

typedef int64_t ms_t;
static const ms_t MS_INF = (ms_t)1 << 60;

struct Action {
    enum Kind { KEY, SIG, RESIZE, STOP, CONT, NOP, FSCREATE, FSUNLINK } kind = NOP;
    ms_t gap = 0;                // simulated ms after the previous action
    long edge = -1;              // >=0: fire asynchronously, that many code edges after the previous action
    ms_t inter = 0;              // KEY: spacing between its bytes (slow line)
    std::string bytes;           // KEY: input; FS*: path
    std::string data;            // FSCREATE: contents
    int sig = 0, rows = 0, cols = 0;
    int flag = 0;                // RESIZE: 1 = terminal contents become garbage; STOP: 1 = SIGSTOP
};

struct RChunk { ms_t delay; long n; };
struct Rule { std::string kind, pat; long a = 0; int err = 0; long count = -1; long hits = 0; };
struct ReadScript { std::string pat; std::vector<RChunk> chunks; };
struct WriteScript { std::string pat; std::vector<RChunk> sizes; };
struct CmdPlan { ms_t read = 10, dur = 50; char kind = 'e'; int code = 0; int forkErr = 0, execErr = 0, stop = 0, rm = 0; };

struct FileNode {
    unsigned id = 0;
    std::string data;
    char kind = 'f';            // f regular, d directory, r read-only, u unreadable, x no creation allowed inside (directory)
    int creator = -1;           // sim process that created it (-1: pre-existing)
};
typedef std::shared_ptr<FileNode> NodeP;

struct OpenFile {
    enum Kind { REG, DIR, TTY, INPIPE, OUT, NUL } kind = REG;
    std::string path;           // normalised; "<stdin>" "<stdout>" "<stderr>" for standard streams
    NodeP node;
    unsigned shid = 0;          // index of the shared offset
    int flags = 0;
    size_t rchunk = 0; long rused = 0; bool rdelayDone = false;
    size_t wcall = 0;
    std::string src;            // INPIPE
    bool hold = false;          // INPIPE: writer never closes
    int outNo = 0;              // OUT: 1 or 2
};
typedef std::shared_ptr<OpenFile> OpenP;

struct Plan {
    struct Inst {
        std::vector<std::string> args;
        std::string stdinKind = "null", stdoutKind = "pipe", stdinData;
        bool stdinHold = false;
    };
    std::vector<Inst> inst;
    std::vector<std::pair<std::string, std::string>> env;
    struct F { std::string path, data; char kind; };
    std::vector<F> files;
    std::vector<Rule> rules;
    std::vector<ReadScript> rscripts;
    std::vector<WriteScript> wscripts;
    std::vector<CmdPlan> cmds;           // nth forked command
    std::vector<Action> acts;
    std::vector<std::pair<long, int>> sched;   // (global syscall number, process to switch to)
    std::string term = "xterm-256color";
    int rows = 24, cols = 80;
    bool notty = false;
    uint64_t heapSeed = 1; int heapMode = 0, heapFill = 0; long stackFill = 0;
    long maxEdges = 30000000, maxSys = 400000;
    ms_t settle = 3000, maxTime = 4000000;
    ms_t ttydelay = 0;
    bool snaps = true;
    bool verbose = false;
};

// jsim: runs the real jsonstroll code on a simulated kernel, one execution per plan.
#include "sim.hh"
#include "alloc.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <algorithm>
#include <exception>
#include <iostream>
#include <typeinfo>
#include <ext/stdio_sync_filebuf.h>
#include <dlfcn.h>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <linux/futex.h>
#include <poll.h>
#include <spawn.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <locale.h>
#include <random>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

#undef stdin
#undef stdout
#undef stderr
extern "C" { extern FILE *stdin, *stdout, *stderr; }
extern "C" pid_t _Fork(void);
extern int jsonstroll_main(int, char **);

#define NOSAN __attribute__((no_sanitize("address"), no_sanitize("undefined")))

// ---------------------------------------------------------------- shared between the processes of a run
enum { MAXPROC = 64, MAXEDGE = 16384, MAXOFF = 512, LOGSZ = 48 << 20, VFSSZ = 12 << 20 };
enum { FREE_, RUN_, BLOCK_, ZOMB_, REAPED_ };
struct ProcSlot { int state; int pid, ppid, inst; ms_t wake; int status; uint64_t pending; int real; bool isCmd; int job; };
struct Shm {
    volatile int token;
    volatile int abortRun;
    ms_t now;
    int nproc, nextPid, nfork;
    long gsys;                       // global syscall counter
    size_t schedPos;
    ProcSlot p[MAXPROC];
    struct { size_t off, written, wcalls, rbytes; } off[MAXOFF];
    unsigned nextOff;
    unsigned nextNode;
    long diskUsed;                   // bytes in /tmp
    char fatal[64];                  // end kind if a process ended the run
    size_t vfsLen;
    uint64_t hash, ilv;
    size_t logLen; bool logFull;
    long faults[64]; 
    uint8_t edges[MAXEDGE];
    char vfs[VFSSZ];
    char log[LOGSZ];
};
static Shm *S;
static int me = 0;                   // my process slot
static Plan &P = *new Plan;         // never destroyed: the exit hook runs after static destructors
static bool g_active = false;
static long g_edges = 0, g_edgeStop = 0, g_mySys = 0, g_stackFill = 0;
static int g_tmpErr = -1;            // real fd capturing sanitizer output

struct K { K() { g_in_kernel++; } ~K() { g_in_kernel--; } };
#define PASS (!g_active || g_in_kernel)

// ---------------------------------------------------------------- fault accounting
static const char *faultNames[] = { "short_read", "slow_read", "read_error", "read_eintr", "open_fail", "short_write", "slow_write",
    "write_error", "disk_full", "close_error", "fork_fail", "exec_fail", "cmd_killed", "cmd_failed", "signal_blocked_point", "signal_async_point",
    "resize", "stop_cont", "key_split", "fs_interference", "preemption", "epipe", "unlink_fail", "notty", "signal_on_wait", "idle_timeout", "typeahead", "garbled_screen", "isdir", "wait_eintr", "cmd_stopped", "unset", nullptr };
enum { F_SHORTR, F_SLOWR, F_RERR, F_REINTR, F_OPEN, F_SHORTW, F_SLOWW, F_WERR, F_DISK, F_CLOSE, F_FORK, F_EXEC, F_CMDKILL, F_CMDFAIL, F_SIGB, F_SIGA,
    F_RESIZE, F_STOP, F_SPLIT, F_FS, F_PREEMPT, F_EPIPE, F_UNLINK, F_NOTTY, F_SIGW, F_IDLE, F_TYPEAHEAD, F_GARBLE, F_ISDIR, F_WEINTR, F_CMDSTOP };

// ---------------------------------------------------------------- log
static std::string esc(const std::string &s)
{
    std::string o; char b[8];
    if (s.empty()) return "-";
    for (unsigned char c : s)
        if (c > 32 && c < 127 && c != '\\' && !(c == '-' && s.size() == 1)) o += (char)c;
        else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    return o;
}
static std::string unesc(const std::string &s)
{
    if (s == "-") return "";
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\\' && i + 3 < s.size() && s[i + 1] == 'x') { o += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16); i += 3; }
        else o += s[i];
    return o;
}
static inline void mix(uint64_t &h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
static void mixs(uint64_t &h, const char *p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; }

static void lograw(const std::string &s)
{
    mixs(S->hash, s.data(), s.size());
    if (S->logLen + s.size() + 2 >= LOGSZ) { S->logFull = true; return; }
    memcpy(S->log + S->logLen, s.data(), s.size());
    S->logLen += s.size();
    S->log[S->logLen++] = '\n';
}
static void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void ev(const char *fmt, ...)
{
    char b[700];
    int n = snprintf(b, sizeof b, "E %lld %d ", (long long)S->now, me);
    va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n, fmt, ap); va_end(ap);
    lograw(std::string(b, std::min<size_t>(n, sizeof b - 1)));
}
static void evs(const std::string &s) { lograw("E " + std::to_string(S->now) + " " + std::to_string(me) + " " + s); }

// ---------------------------------------------------------------- state of this process
static std::map<std::string, NodeP> &vfs = *new std::map<std::string, NodeP>;
static std::map<int, OpenP> &fds = *new std::map<int, OpenP>;
static std::map<FILE *, int> &fmap = *new std::map<FILE *, int>;
static struct sigaction acts[65];
static uint64_t sigmask_ = 0;
static bool stopped_ = false;
static Term &T = *new Term;
static struct termios tio;
static std::deque<unsigned char> &ttyq = *new std::deque<unsigned char>;
static std::deque<std::pair<ms_t, unsigned char>> &lineq = *new std::deque<std::pair<ms_t, unsigned char>>;   // bytes still travelling on a slow line
static size_t actPos = 0;
static ms_t lastAct = 0;
static long lastActEdge = 0;
static size_t delivered = 0;
static bool snapPending = true;
static ms_t quietSince = 0;
static int inHandler = 0;
static bool isCopy = false;          // forked half of the program
static ms_t g_ttyBlockedSince = 0;

static std::string norm(const char *path)
{
    std::string p = path ? path : "";
    if (p.empty()) return p;
    if (p[0] != '/') p = "/w/" + p;
    std::vector<std::string> parts; std::string cur;
    bool trail = p.size() > 1 && p.back() == '/';
    for (size_t i = 1; i <= p.size(); ++i) {
        if (i == p.size() || p[i] == '/') {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        } else cur += p[i];
    }
    std::string o;
    for (auto &q : parts) o += "/" + q;
    (void)trail;
    return o.empty() ? "/" : o;
}
static std::string dirOf(const std::string &p) { size_t i = p.rfind('/'); return i == 0 || i == std::string::npos ? "/" : p.substr(0, i); }
static bool realPath(const std::string &p)
{
    static const char *pre[] = { "/usr/share/", "/usr/lib/", "/lib/", "/etc/terminfo", "/usr/local/share/terminfo", "/proc/self/maps", nullptr };
    for (int i = 0; pre[i]; ++i) if (p.compare(0, strlen(pre[i]), pre[i]) == 0) return true;
    return false;
}
static bool pm(const std::string &pat, const std::string &path) { return fnmatch(pat.c_str(), path.c_str(), 0) == 0; }
static Rule *rule(const char *kind, const std::string &path)
{
    for (Rule &r : P.rules) if (r.kind == kind && pm(r.pat, path)) return &r;
    return nullptr;
}

[[noreturn]] static void realExit(int rc) { for (;;) syscall(SYS_exit_group, rc); }

// ---------------------------------------------------------------- VFS hand-over between processes
static void putU(std::string &b, uint64_t v) { b.append((char *)&v, 8); }
static void putS(std::string &b, const std::string &s) { putU(b, s.size()); b += s; }
static void vfsSave()
{
    std::string b;
    putU(b, vfs.size());
    for (auto &it : vfs) { putS(b, it.first); putU(b, it.second->id); b += it.second->kind; putU(b, it.second->creator); putS(b, it.second->data); }
    std::vector<NodeP> extra;
    for (auto &f : fds) if (f.second->node) extra.push_back(f.second->node);
    putU(b, extra.size());
    for (auto &n : extra) { putU(b, n->id); putS(b, n->data); }
    if (b.size() > VFSSZ) { strcpy(S->fatal, "harness-vfs"); S->abortRun = 1; realExit(98); }
    memcpy(S->vfs, b.data(), b.size()); S->vfsLen = b.size();
}
static void vfsLoad()
{
    std::map<unsigned, NodeP> byId;
    for (auto &it : vfs) byId[it.second->id] = it.second;
    for (auto &f : fds) if (f.second->node) byId[f.second->node->id] = f.second->node;
    const char *p = S->vfs;
    auto U = [&] { uint64_t v; memcpy(&v, p, 8); p += 8; return v; };
    auto STR = [&] { size_t n = U(); std::string s(p, n); p += n; return s; };
    std::map<std::string, NodeP> nv;
    for (uint64_t n = U(); n; --n) {
        std::string path = STR(); unsigned id = U(); char k = *p++; int cr = (int)U(); std::string d = STR();
        NodeP &nd = byId[id];
        if (!nd) nd = std::make_shared<FileNode>();
        nd->id = id; nd->kind = k; nd->creator = cr; nd->data = d;
        nv[path] = nd;
    }
    for (uint64_t n = U(); n; --n) { unsigned id = U(); std::string d = STR(); auto it = byId.find(id); if (it != byId.end() && it->second) it->second->data = d; }
    vfs.swap(nv);
}

// ---------------------------------------------------------------- end of a process / of the run
static std::string snapBody()
{
    char b[160];
    snprintf(b, sizeof b, "%d %d %d %d %d %d ", T.rows, T.cols, T.cy, T.cx, (int)T.altScreen, (int)T.cursorVisible);
    return b + esc(T.dump());
}
static void finalState(const char *kind, long code, const std::string &info)
{
    // me is the process that ends; the run's global end is logged by process 0
    char b[400];
    snprintf(b, sizeof b, "END %d %s %ld t=%lld edges=%ld sys=%ld allocs=%lu acts=%zu tty=%s alt=%d cur=%d keypad=%d color=%d tbytes=%lu unk=%lu ttyq=%zu",
             me, kind, code, (long long)S->now, g_edges, g_mySys, g_allocs, delivered,
             ((tio.c_lflag & (ICANON | ECHO | ISIG)) == (ICANON | ECHO | ISIG) && (tio.c_oflag & OPOST)) ? "sane" : "raw",
             (int)T.altScreen, (int)T.cursorVisible, (int)T.appKeypad, (int)T.colorUsed, T.bytesSeen, T.unknownSeq, ttyq.size());
    lograw(std::string(b) + " info=" + esc(info) + (T.unknownSeq ? " unkseq=" + esc(T.unknownSample) : ""));
}
static void endRun(const char *kind, long code, const std::string &info)
{
    // whole-run verdict (hang, blocked, crash...)
    finalState(kind, code, info);
    if (!S->fatal[0]) snprintf(S->fatal, sizeof S->fatal, "%s", kind);
    if (me == 0 && T.rows) lograw("F " + snapBody());
    vfsSave();
    S->abortRun = 1;
    realExit(0);
}

static long sysFutex(volatile int *a, int op, int v, ms_t ms)
{
    struct timespec ts = { ms / 1000, (ms % 1000) * 1000000 };
    return syscall(SYS_futex, a, op, v, &ts, nullptr, 0);
}
static void giveToken(int to)
{
    vfsSave();
    S->token = to;
    syscall(SYS_futex, &S->token, FUTEX_WAKE, 64, nullptr, nullptr, 0);
}
static void awaitToken()
{
    for (int spins = 0; S->token != me; ) {
        if (S->abortRun) realExit(0);
        sysFutex(&S->token, FUTEX_WAIT, S->token, 100);
        if (S->token == me) break;
        if (++spins > 600) realExit(97);
    }
    if (S->abortRun) realExit(0);
    vfsLoad();
}

static ms_t nextActTime();
static bool stepActions();           // fire everything due; true if a signal was raised

static void schedPickOther()
{
    // choose who runs next among the live processes; called by a process that has just set its own state
    for (;;) {
        int best = -1; ms_t bw = MS_INF;
        for (int i = 0; i < S->nproc; ++i) {
            if (S->p[i].state != RUN_ && S->p[i].state != BLOCK_) continue;
            ms_t w = S->p[i].state == RUN_ ? S->now : S->p[i].wake;
            if (S->p[i].pending && S->p[i].state == BLOCK_) w = std::min(w, S->now);
            if (w < bw) { bw = w; best = i; }
        }
        if (best < 0 || bw >= MS_INF) {
            endRun("blocked", 0, "all processes wait for ever");
        }
        if (bw > S->now) S->now = bw;
        if (S->now > P.maxTime) endRun("blocked", 1, "simulated time limit");
        if (best == me) return;
        giveToken(best);
        if (S->p[me].state == ZOMB_ || S->p[me].state == REAPED_) realExit(0);
        awaitToken();
        return;
    }
}
// block the current process until `until` (absolute) or until it is woken
static void blockUntil(ms_t until)
{
    S->p[me].state = BLOCK_;
    S->p[me].wake = until;
    schedPickOther();
    S->p[me].state = RUN_;
}

static int processExit(int status)
{
    S->p[me].status = status;
    S->p[me].state = ZOMB_;
    int par = S->p[me].ppid;
    for (int i = 0; i < S->nproc; ++i) if (S->p[i].pid == par && S->p[i].state == BLOCK_) S->p[i].wake = S->now;
    return 0;
}
[[noreturn]] static void goneExit(const char *kind, long code, const std::string &info, int status)
{
    g_in_kernel++;
    g_active = false;
    finalState(kind, code, info);
    if (me == 0) lograw("F " + snapBody());
    // open files are dropped by the kernel
    fds.clear();
    processExit(status);
    bool others = false;
    for (int i = 0; i < S->nproc; ++i) if (i != me && (S->p[i].state == RUN_ || S->p[i].state == BLOCK_)) others = true;
    if (!others) { vfsSave(); S->abortRun = 1; realExit(0); }
    S->p[me].state = ZOMB_;
    schedPickOther();
    realExit(0);
}

static void onExitHook(int rc, void *)
{
    if (!g_active) return;
    std::cout.flush(); std::cerr.flush();
    fflush(nullptr);
    goneExit("exit", rc & 0xff, "", (rc & 0xff) << 8);
}
__attribute__((constructor(101))) static void regExit() { on_exit(onExitHook, nullptr); }

static void onTerminate()
{
    g_in_kernel++;
    std::string what = "no exception";
    if (std::type_info *t = abi::__cxa_current_exception_type()) {
        int st; char *d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        what = d ? d : t->name();
        try { throw; } catch (std::exception &e) { what += std::string(": ") + e.what(); } catch (...) {}
    }
    endRun("terminate", 0, what);
}
static void onDeath()
{
    if (!g_active || !S) return;
    g_in_kernel++;
    g_active = false;
    if (!S->fatal[0]) strcpy(S->fatal, "crash");
    // keep it simple: the heap may be corrupt
    char b[100]; int n = snprintf(b, sizeof b, "END %d crash 0 t=%lld edges=%ld sys=%ld acts=%zu info=-", me, (long long)S->now, g_edges, g_mySys, delivered);
    if (S->logLen + n + 2 < LOGSZ) { memcpy(S->log + S->logLen, b, n); S->logLen += n; S->log[S->logLen++] = '\n'; }
    S->abortRun = 1;
}
extern "C" void __ubsan_on_report(void) { onDeath(); }      // libubsan ends the program without the callback of libasan
void heap_bad_free(void *p, bool twice)
{
    g_in_kernel++;
    char b[120]; int n = snprintf(b, sizeof b, "\n==1==ERROR: AddressSanitizer: attempting %s on %p\n", twice ? "double-free" : "free of an address that is not an object", p);
    syscall(SYS_write, 2, b, n);
    __sanitizer_print_stack_trace();
    onDeath();
    realExit(77);
}

// ---------------------------------------------------------------- signals
static const char *sigNm(int s) { static char b[8]; switch (s) { case SIGINT: return "INT"; case SIGTERM: return "TERM"; case SIGWINCH: return "WINCH"; case SIGTSTP: return "TSTP";
    case SIGCONT: return "CONT"; case SIGHUP: return "HUP"; case SIGPIPE: return "PIPE"; case SIGCHLD: return "CHLD"; case SIGQUIT: return "QUIT"; case SIGSTOP: return "STOP"; case SIGALRM: return "ALRM"; }
    snprintf(b, sizeof b, "%d", s); return b; }
static void raiseTo(int slot, int sig)
{
    if (sig == SIGCONT && slot == me) stopped_ = false;
    const uint64_t stops = 1ull << SIGSTOP | 1ull << SIGTSTP | 1ull << SIGTTIN | 1ull << SIGTTOU;
    if (sig == SIGCONT) S->p[slot].pending &= ~stops;
    if (stops >> sig & 1) S->p[slot].pending &= ~(1ull << SIGCONT);
    S->p[slot].pending |= 1ull << sig;
}
static const char *where_ = "run";    // what the program is doing: poll, read, wait, write, run
static void doStop()
{
    // the process is stopped: only time and actions happen until SIGCONT
    stopped_ = true;
    const char *w = where_;
    where_ = "run";
    ev("stopped alt=%d tty=%s cur=%d", (int)T.altScreen, ((tio.c_lflag & (ICANON | ECHO)) == (ICANON | ECHO)) ? "sane" : "raw", (int)T.cursorVisible);
    S->faults[F_STOP]++;
    while (stopped_) {
        if (actPos >= P.acts.size()) endRun("stopped", 0, "");
        ms_t t = nextActTime();
        if (t > S->now) S->now = t;
        stepActions();
    }
    where_ = w;
    ev("continued");
}
// deliver pending unblocked signals; returns 0 none, 1 handlers ran (all SA_RESTART), 2 a handler without SA_RESTART ran
static int deliver()
{
    int res = 0;
    for (;;) {
        uint64_t d = S->p[me].pending & ~sigmask_;
        if (!d) return res;
        int sig = __builtin_ctzll(d);
        S->p[me].pending &= ~(1ull << sig);
        struct sigaction &a = acts[sig];
        bool dfl = (sig == SIGKILL || sig == SIGSTOP) || (!(a.sa_flags & SA_SIGINFO) && a.sa_handler == SIG_DFL);
        if (!dfl && a.sa_handler == SIG_IGN) continue;
        if (dfl) {
            switch (sig) {
            case SIGCHLD: case SIGCONT: case SIGWINCH: case SIGURG: continue;
            case SIGTSTP: case SIGSTOP: case SIGTTIN: case SIGTTOU: doStop(); continue;
            default:
                ev("killed %s", sigNm(sig));
                goneExit("signal", sig, "", sig);
            }
        }
        ev("handler %s depth=%d", sigNm(sig), inHandler);
        uint64_t om = sigmask_;
        for (int i = 1; i < 65; ++i) if (sigismember(&a.sa_mask, i) == 1) sigmask_ |= 1ull << i;
        if (!(a.sa_flags & SA_NODEFER)) sigmask_ |= 1ull << sig;
        struct sigaction cp = a;
        if (a.sa_flags & SA_RESETHAND) a.sa_handler = SIG_DFL;
        int sk = g_in_kernel, se = errno;
        g_in_kernel = 0; inHandler++;
        if (cp.sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; cp.sa_sigaction(sig, &si, nullptr); }
        else cp.sa_handler(sig);
        inHandler--; g_in_kernel = sk; errno = se;
        sigmask_ = om;
        int r = (cp.sa_flags & SA_RESTART) ? 1 : 2;
        if (r > res) res = r;
    }
}

// ---------------------------------------------------------------- actions (user at the keyboard, other programs)
static ms_t nextActTime()
{
    ms_t t = MS_INF;
    if (me != 0 || isCopy) return t;
    if (!lineq.empty()) t = lineq.front().first;
    if (actPos < P.acts.size() && P.acts[actPos].edge < 0) t = std::min(t, std::max(lastAct + P.acts[actPos].gap, S->now));
    // an edge-armed action whose moment did not come while the code ran fires when the program next waits
    if (actPos < P.acts.size() && P.acts[actPos].edge >= 0) t = std::min(t, std::max(lastAct + P.acts[actPos].gap, S->now));
    return t;
}
static void ttyInput(unsigned char c)
{
    if (tio.c_lflag & ISIG) {
        int sig = 0;
        if (c == tio.c_cc[VINTR]) sig = SIGINT;
        else if (c == tio.c_cc[VQUIT]) sig = SIGQUIT;
        else if (c == tio.c_cc[VSUSP]) sig = SIGTSTP;
        if (sig) { if (!(tio.c_lflag & NOFLSH)) ttyq.clear();
            for (int i = 0; i < S->nproc; ++i) if (S->p[i].state == RUN_ || S->p[i].state == BLOCK_) raiseTo(i, sig);
            return; }
    }
    if (c == '\r' && (tio.c_iflag & ICRNL)) c = '\n';
    else if (c == '\n' && (tio.c_iflag & INLCR)) c = '\r';
    if ((tio.c_lflag & ICANON)) {
        if (c == tio.c_cc[VERASE]) { if (!ttyq.empty() && ttyq.back() != '\n') ttyq.pop_back(); return; }
    }
    ttyq.push_back(c);
    if (tio.c_lflag & ECHO) { char e = c; if (c == '\n') T.feed("\r\n", 2); else if (c >= 32) T.feed(&e, 1); }
}
static void snapNow(const char *why)
{
    if (!P.snaps || me != 0) return;
    lograw("S " + std::to_string(S->now) + " " + std::to_string(delivered) + " " + std::to_string(S->now - quietSince) + " " + why + " " + snapBody());
}
static void fire(const Action &a)
{
    mix(S->ilv, (uint64_t)S->gsys); mix(S->ilv, a.kind);
    bool blocked = !strcmp(where_, "poll");
    switch (a.kind) {
    case Action::KEY:
        ev("key %s at=%s", esc(a.bytes).c_str(), where_);
        if (!ttyq.empty()) S->faults[F_TYPEAHEAD]++;
        if (a.inter > 0 && a.bytes.size() > 1) {
            S->faults[F_SPLIT]++;
            ttyInput(a.bytes[0]);
            for (size_t i = 1; i < a.bytes.size(); ++i) lineq.push_back({ S->now + (ms_t)i * a.inter, (unsigned char)a.bytes[i] });
        } else for (unsigned char c : a.bytes) ttyInput(c);
        break;
    case Action::SIG:
        ev("sig %s at=%s", sigNm(a.sig), where_);
        S->faults[blocked ? F_SIGB : (!strcmp(where_, "edge") ? F_SIGA : F_SIGW)]++;
        raiseTo(0, a.sig);
        break;
    case Action::RESIZE:
        ev("resize %d %d at=%s", a.rows, a.cols, where_);
        S->faults[F_RESIZE]++;
        T.resize(a.rows, a.cols, a.flag);
        if (a.flag) S->faults[F_GARBLE]++;
        if (!stopped_) raiseTo(0, SIGWINCH);
        break;
    case Action::STOP:
        ev("stop %d at=%s", a.flag, where_);
        raiseTo(0, a.flag ? SIGSTOP : SIGTSTP);
        break;
    case Action::CONT:
        ev("cont");
        if (stopped_ && !T.altScreen) { T.scribble(); }
        stopped_ = false;
        raiseTo(0, SIGCONT);
        break;
    case Action::FSCREATE: {
        ev("fscreate %s", esc(a.bytes).c_str());
        S->faults[F_FS]++;
        NodeP n = std::make_shared<FileNode>();
        n->id = ++S->nextNode; n->data = a.data; n->kind = a.flag ? (char)a.flag : 'f';
        vfs[a.bytes] = n;
        break; }
    case Action::FSUNLINK: ev("fsunlink %s", esc(a.bytes).c_str()); S->faults[F_FS]++; vfs.erase(a.bytes); break;
    case Action::NOP: break;
    }
}
static void arm()
{
    // (re)compute the next edge count at which the slow path must run
    long stop = P.maxEdges;
    if (me == 0 && !isCopy && actPos < P.acts.size() && P.acts[actPos].edge >= 0) stop = std::min(stop, lastActEdge + P.acts[actPos].edge);
    g_edgeStop = std::max(stop, g_edges + 1);
}
static bool stepActions()
{
    bool sig = false;
    uint64_t before = S->p[me].pending;
    while (me == 0 && !isCopy) {
        if (!lineq.empty() && lineq.front().first <= S->now) { ttyInput(lineq.front().second); lineq.pop_front(); continue; }
        if (actPos >= P.acts.size()) break;
        const Action &a = P.acts[actPos];
        ms_t due = lastAct + a.gap;
        if (a.edge >= 0 && !strcmp(where_, "edge")) { if (g_edges < lastActEdge + a.edge) break; }
        else if (due > S->now) break;
        if (!lineq.empty()) { if (due > S->now) break; /* finish the slow key first */ while (!lineq.empty()) { ttyInput(lineq.front().second); lineq.pop_front(); } }
        actPos++;
        lastAct = S->now; lastActEdge = g_edges;
        fire(a);
        delivered++;
        snapPending = true;
        quietSince = S->now;
        bool was = stopped_;
        if (was || stopped_) { if (!stopped_) break; }
    }
    arm();
    sig = S->p[me].pending & ~before;
    return sig;
}

// ---------------------------------------------------------------- system call entry
static void sysEnter(const char *name, uint64_t a = 0)
{
    g_mySys++; S->gsys++;
    mix(S->hash, name[0] * 31 + name[1]); mix(S->hash, a); mix(S->hash, g_edges); mix(S->hash, me);
    mix(S->ilv, name[0] * 31 + name[1]); mix(S->ilv, me);
    if (g_mySys > P.maxSys) endRun("hang", g_mySys, "system call budget exceeded");
    if (S->nproc > 1 && S->schedPos < P.sched.size() && S->gsys >= P.sched[S->schedPos].first) {
        int to = P.sched[S->schedPos].second; S->schedPos++;
        if (to != me && to < S->nproc && (S->p[to].state == RUN_ || (S->p[to].state == BLOCK_ && S->p[to].wake <= S->now))) {
            S->faults[F_PREEMPT]++;
            ev("switch %d", to);
            S->p[me].state = RUN_;
            giveToken(to);
            awaitToken();
        }
    }
    const char *ow = where_; where_ = name;
    stepActions();
    where_ = ow;
    deliver();
}
// let simulated time pass up to `until` while blocked in a call that restarts after signals.
// returns 2 if a handler without SA_RESTART ran
static int passTime(ms_t until, const char *where)
{
    while (S->now < until) {
        const char *ow = where_; where_ = where;
        ms_t n = std::min(until, nextActTime());
        if (n > S->now) blockUntil(n);
        stepActions();
        where_ = ow;
        int r = deliver();
        if (r == 2) return 2;
    }
    return 0;
}
static bool allDone() { return me != 0 || (actPos >= P.acts.size() && lineq.empty()); }

// ---------------------------------------------------------------- files
static OpenP getfd(int fd) { auto it = fds.find(fd); return it == fds.end() ? OpenP() : it->second; }
static size_t &offOf(const OpenP &f) { return S->off[f->shid].off; }
static unsigned newOff() { unsigned i = S->nextOff++; if (i >= MAXOFF) endRun("hang", 0, "too many opens"); memset(&S->off[i], 0, sizeof S->off[i]); return i; }

static mode_t umask_ = 022;
static char kindOf(mode_t m) { return !(m & 0400) ? 'u' : !(m & 0200) ? 'r' : 'f'; }
static int simOpen(const char *path, int flags, mode_t mode)
{
    std::string p = norm(path);
    sysEnter("open");
    auto done = [&](int r, int e) { evs("open " + esc(p) + " " + std::to_string(flags & (O_ACCMODE | O_CREAT | O_EXCL | O_TRUNC | O_APPEND)) + " = " + std::to_string(r < 0 ? -e : r)); if (r < 0) errno = e; return r; };
    if (p.empty()) return done(-1, ENOENT);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    for (Rule &r : P.rules) if (r.kind == (wr ? "openfail_w" : "openfail_r") && pm(r.pat, p)) {
        // fail opens number a .. a+count-1
        long n = r.hits++;
        if (n >= r.a && (r.count < 0 || n < r.a + r.count)) { S->faults[F_OPEN]++; return done(-1, r.err); }
    }
    OpenP f = std::make_shared<OpenFile>();
    f->path = p; f->flags = flags;
    if (p == "/dev/tty") {
        if (P.notty) { S->faults[F_NOTTY]++; return done(-1, ENXIO); }
        f->kind = OpenFile::TTY; f->path = "<tty>";
    } else if (p == "/dev/null") f->kind = OpenFile::NUL;
    else {
        auto it = vfs.find(p);
        if (it != vfs.end() && (it->second->kind == 'd' || it->second->kind == 'x')) {
            if (wr) { S->faults[F_ISDIR]++; return done(-1, EISDIR); }
            f->kind = OpenFile::DIR; f->node = it->second;
        } else if (it != vfs.end()) {
            if ((flags & O_CREAT) && (flags & O_EXCL)) return done(-1, EEXIST);
            if (it->second->kind == 'u') { S->faults[F_OPEN]++; return done(-1, EACCES); }
            if (wr && it->second->kind == 'r') { S->faults[F_OPEN]++; return done(-1, EACCES); }
            f->node = it->second;
            if ((flags & O_TRUNC) && wr) { if (p.compare(0, 5, "/tmp/") == 0) S->diskUsed -= f->node->data.size(); f->node->data.clear(); }
        } else {
            if (!(flags & O_CREAT)) return done(-1, ENOENT);
            auto d = vfs.find(dirOf(p));
            if (d == vfs.end()) return done(-1, ENOENT);
            if (d->second->kind == 'x') { S->faults[F_OPEN]++; return done(-1, EACCES); }
            if (d->second->kind != 'd') return done(-1, ENOTDIR);
            NodeP n = std::make_shared<FileNode>();
            n->id = ++S->nextNode; n->creator = me; n->kind = kindOf(mode & ~umask_);
            vfs[p] = n; f->node = n;
        }
    }
    f->shid = newOff();
    int fd = 1000;
    while (fds.count(fd)) fd++;
    if (fds.size() > 400) return done(-1, EMFILE);
    fds[fd] = f;
    return done(fd, 0);
}
static int simClose(int fd)
{
    auto f = getfd(fd);
    sysEnter("close", fd);
    if (!f) { errno = EBADF; return -1; }
    fds.erase(fd);
    if (Rule *r = rule("closeerr", f->path)) if ((f->flags & O_ACCMODE) != O_RDONLY && r->count-- != 0) {
        S->faults[F_CLOSE]++; evs("close " + esc(f->path) + " = " + std::to_string(-r->err)); errno = r->err; return -1; }
    evs("close " + esc(f->path) + " = 0");
    return 0;
}

static bool ttyReady()
{
    if (tio.c_lflag & ICANON) return std::find(ttyq.begin(), ttyq.end(), '\n') != ttyq.end();
    return !ttyq.empty();
}
static bool readable(const OpenP &f)
{
    switch (f->kind) {
    case OpenFile::TTY: return ttyReady();
    case OpenFile::INPIPE: return offOf(f) < f->src.size() || !f->hold;
    default: return true;
    }
}
static const char *waitName(const OpenP &f) { return f->kind == OpenFile::TTY ? "poll" : "read"; }
static ReadScript *rsOf(const std::string &p) { for (auto &r : P.rscripts) if (pm(r.pat, p)) return &r; return nullptr; }

static void endIdle() { snapNow("end"); endRun("waiting", 0, ""); }

static ssize_t simRead(int fd, void *buf, size_t n)
{
    auto f = getfd(fd);
    sysEnter("read", n);
    if (!f) { errno = EBADF; return -1; }
    if (f->kind == OpenFile::NUL) return 0;
    if (f->kind == OpenFile::DIR) { S->faults[F_ISDIR]++; ev("readerr %s = -21", esc(f->path).c_str()); errno = EISDIR; return -1; }
    if (f->kind == OpenFile::OUT) { errno = EBADF; return -1; }
    if (f->kind == OpenFile::TTY) {
        for (;;) {
            if (ttyReady()) break;
            if (tio.c_lflag & ICANON) {} else if (tio.c_cc[VMIN] == 0) return 0;
            int pr;
            if (allDone()) { if (S->now >= lastAct + P.settle) endIdle(); blockUntil(lastAct + P.settle); continue; }
            pr = 0;
            ms_t t = nextActTime();
            if (t > S->now) { if (snapPending) { snapNow("read"); snapPending = false; } blockUntil(t); }
            const char *ow = where_; where_ = "poll"; stepActions(); where_ = ow;
            pr = deliver();
            if (pr == 2) { errno = EINTR; return -1; }
        }
        size_t k = 0; char *o = (char *)buf;
        while (k < n && !ttyq.empty()) { o[k] = ttyq.front(); ttyq.pop_front(); if (o[k++] == '\n' && (tio.c_lflag & ICANON)) break; }
        quietSince = S->now;
        return k;
    }
    size_t &off = offOf(f);
    const std::string &d = f->kind == OpenFile::INPIPE ? f->src : f->node->data;
    if (Rule *r = rule("readintr", f->path)) if ((long)off >= r->a && r->count != 0) { r->count--; S->faults[F_REINTR]++; errno = EINTR; return -1; }
    size_t lim = d.size();
    Rule *re = rule("readerr", f->path);
    if (re && re->count != 0) {
        if ((long)off >= re->a) { if (re->count > 0) re->count--; S->faults[F_RERR]++; ev("readerr %s = %d off=%zu", esc(f->path).c_str(), -re->err, off); errno = re->err; return -1; }
        lim = std::min<size_t>(lim, re->a);
    }
    size_t want = std::min(n, off < lim ? lim - off : 0);
    if (ReadScript *rs = rsOf(f->path)) {
        while (f->rchunk < rs->chunks.size()) {
            RChunk &c = rs->chunks[f->rchunk];
            if (!f->rdelayDone && c.delay > 0) {
                f->rdelayDone = true; S->faults[F_SLOWR]++;
                if (passTime(S->now + c.delay, "read") == 2) { errno = EINTR; return -1; }
            }
            f->rdelayDone = true;
            if (c.n - f->rused <= 0) { f->rchunk++; f->rused = 0; f->rdelayDone = false; continue; }
            if (want > (size_t)(c.n - f->rused)) { want = c.n - f->rused; S->faults[F_SHORTR]++; }
            f->rused += want;
            if (f->rused >= c.n) { f->rchunk++; f->rused = 0; f->rdelayDone = false; }
            break;
        }
    }
    if (f->kind == OpenFile::INPIPE && want == 0 && f->hold && off >= d.size()) {
        // writer keeps the pipe open and silent
        for (;;) {
            if (allDone()) { if (S->now >= lastAct + P.settle) endIdle(); blockUntil(lastAct + P.settle); continue; }
            if (passTime(std::max(S->now + 1, nextActTime()), "read") == 2) { errno = EINTR; return -1; }
        }
    }
    if (want) memcpy(buf, d.data() + off, want);
    off += want;
    mix(S->hash, want);
    S->off[f->shid].rbytes += want;
    if (P.verbose) ev("read %s %zu", esc(f->path).c_str(), want);
    return want;
}

static ssize_t simWrite(int fd, const void *buf, size_t n)
{
    auto f = getfd(fd);
    sysEnter("write", n);
    if (!f) { errno = EBADF; return -1; }
    if (n == 0) return 0;
    auto &o = S->off[f->shid];
    o.wcalls++;
    for (auto &w : P.wscripts) if (pm(w.pat, f->path)) {
        if (f->wcall < w.sizes.size()) {
            RChunk &c = w.sizes[f->wcall++];
            if (c.delay > 0) { S->faults[F_SLOWW]++; if (passTime(S->now + c.delay, "write") == 2) { errno = EINTR; return -1; } }
            if (c.n == 0) { S->faults[F_REINTR]++; errno = EINTR; return -1; }
            if (c.n > 0 && (size_t)c.n < n) { n = c.n; S->faults[F_SHORTW]++; }
        }
        break;
    }
    if (f->kind == OpenFile::TTY && P.ttydelay) { S->faults[F_SLOWW]++; passTime(S->now + P.ttydelay, "write"); }
    if (f->kind == OpenFile::TTY) quietSince = S->now;
    if (Rule *r = rule("writeerr", f->path)) if (r->count != 0) {
        if ((long)o.written >= r->a) {
            if (r->count > 0) r->count--;
            S->faults[r->err == EPIPE ? F_EPIPE : r->err == ENOSPC ? F_DISK : F_WERR]++;
            evs("writeerr " + esc(f->path) + " " + std::to_string(-r->err));
            if (r->err == EPIPE) { raiseTo(me, SIGPIPE); deliver(); }
            errno = r->err; return -1;
        }
        n = std::min<size_t>(n, r->a - o.written);
    }
    switch (f->kind) {
    case OpenFile::NUL: break;
    case OpenFile::TTY: T.feed((const char *)buf, n); mix(S->hash, T.hash()); break;
    case OpenFile::OUT: evs("out " + std::to_string(f->outNo) + " " + esc(std::string((const char *)buf, n))); break;
    case OpenFile::REG: {
        if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        size_t &off = offOf(f);
        if (f->flags & O_APPEND) off = f->node->data.size();
        if (Rule *r = rule("disk", f->path)) {
            size_t grow = off + n > f->node->data.size() ? off + n - f->node->data.size() : 0;
            long room = r->a - S->diskUsed;
            if ((long)grow > room) {
                if (room <= 0) { S->faults[F_DISK]++; evs("writeerr " + esc(f->path) + " " + std::to_string(-r->err)); errno = r->err; return -1; }
                n -= grow - room; grow = room;
            }
            S->diskUsed += grow;
        }
        std::string &d = f->node->data;
        if (d.size() < off + n) d.resize(off + n);
        memcpy(&d[off], buf, n);
        off += n;
        ev("write %s %zu", esc(f->path).c_str(), n);
        break; }
    default: errno = EBADF; return -1;
    }
    o.written += n;
    return n;
}
static off_t simSeek(int fd, off_t o, int wh)
{
    auto f = getfd(fd);
    sysEnter("lseek", o);
    if (!f) { errno = EBADF; return -1; }
    if (f->kind != OpenFile::REG) { errno = ESPIPE; return -1; }
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)offOf(f) : (off_t)f->node->data.size();
    if (base + o < 0) { errno = EINVAL; return -1; }
    offOf(f) = base + o;
    return base + o;
}
static void fillStat(struct stat *st, const OpenP &f, const NodeP &nd)
{
    memset(st, 0, sizeof *st);
    st->st_nlink = 1; st->st_blksize = 4096; st->st_uid = 0;
    char k = nd ? nd->kind : 'f';
    if (f && f->kind == OpenFile::TTY) { st->st_mode = S_IFCHR | 0620; st->st_rdev = 0x8801; st->st_ino = 3; }
    else if (f && (f->kind == OpenFile::INPIPE || f->kind == OpenFile::OUT)) { st->st_mode = S_IFIFO | 0600; st->st_ino = 5 + f->outNo; }
    else if (f && f->kind == OpenFile::NUL) { st->st_mode = S_IFCHR | 0666; st->st_rdev = 0x103; }
    else if (k == 'd' || k == 'x') { st->st_mode = S_IFDIR | 0755; st->st_ino = nd->id; }
    else { st->st_mode = S_IFREG | 0644; st->st_ino = nd ? nd->id : 0; st->st_size = nd ? nd->data.size() : 0; }
}
static int simUnlink(const char *path)
{
    std::string p = norm(path);
    sysEnter("unlink");
    auto it = vfs.find(p);
    int e = 0;
    if (Rule *r = rule("unlinkfail", p)) if (r->count != 0) { if (r->count > 0) r->count--; e = r->err; S->faults[F_UNLINK]++; }
    if (!e && it == vfs.end()) e = ENOENT;
    if (!e && (it->second->kind == 'd' || it->second->kind == 'x')) e = EISDIR;
    evs("unlink " + esc(p) + " = " + std::to_string(-e));
    if (e) { errno = e; return -1; }
    if (p.compare(0, 5, "/tmp/") == 0) S->diskUsed -= it->second->data.size();
    vfs.erase(it);
    return 0;
}

static void wireStd();
// ---------------------------------------------------------------- processes
static int simFork()
{
    sysEnter("fork");
    size_t k = S->nfork++;
    CmdPlan c = k < P.cmds.size() ? P.cmds[k] : CmdPlan();
    if (c.forkErr) { S->faults[F_FORK]++; ev("fork = %d", -c.forkErr); errno = c.forkErr; return -1; }
    if (S->nproc >= MAXPROC) { errno = EAGAIN; return -1; }
    int slot = S->nproc++;
    ProcSlot &s = S->p[slot];
    memset(&s, 0, sizeof s);
    s.state = RUN_; s.pid = S->nextPid++; s.ppid = S->p[me].pid; s.inst = S->p[me].inst;
    int mypid = s.pid;
    ev("fork = %d", mypid);
    vfsSave();
    pid_t r = _Fork();
    if (r == 0) {
        me = slot; isCopy = true; g_mySys = 0;
        awaitToken();
        arm();
        return 0;
    }
    s.real = r;
    return mypid;
}
// the external command: a stub actor that opens and reads the files named on its command line
static int simExec(const char *file, char *const argv[])
{
    sysEnter("exec");
    size_t k = 0;
    { // which forked command are we? number of forks before ours
        for (int i = 0; i < me; ++i) if (S->p[i].ppid != 1) k++;
    }
    CmdPlan c = k < P.cmds.size() ? P.cmds[k] : CmdPlan();
    std::string l = "exec " + esc(file ? file : "");
    std::vector<std::string> av;
    for (int i = 0; argv && argv[i]; ++i) av.push_back(argv[i]);
    for (auto &a : av) l += " " + esc(a);
    int e = c.execErr;
    if (!e && (!file || !*file)) e = ENOENT;
    evs(l + " = " + std::to_string(-e));
    if (e) { S->faults[F_EXEC]++; errno = e; return -1; }
    if (!isCopy) endRun("execself", 0, "the program replaced itself");
    g_active = false; g_in_kernel++;
    S->p[me].isCmd = true;
    for (int i = 1; i < 65; ++i) if (acts[i].sa_handler != SIG_IGN) acts[i].sa_handler = SIG_DFL;
    auto wait = [&](ms_t d) { ms_t t = S->now + d; while (S->now < t) { blockUntil(t); if (S->p[me].pending & ((1ull << SIGINT) | (1ull << SIGTERM) | (1ull << SIGQUIT))) {
        uint64_t d2 = S->p[me].pending & ~sigmask_; if (d2) { int sg = __builtin_ctzll(d2); evs("cmdend signal " + std::to_string(sg)); goneExit("cmd", 0, "", sg); } S->p[me].pending = 0; } } };
    wait(c.read);
    for (size_t i = 1; i < av.size(); ++i) {
        std::string p = norm(av[i].c_str());
        auto it = vfs.find(p);
        if (it == vfs.end() || it->second->kind == 'u') evs("cmdread " + std::to_string(i) + " " + esc(p) + " missing");
        else evs("cmdread " + std::to_string(i) + " " + esc(p) + " data " + esc(it->second->data));
    }
    // the command removes the m-th of the temporary files it was given
    for (size_t i = 1, m = c.rm; m && i < av.size(); ++i) {
        std::string p = norm(av[i].c_str());
        auto it = vfs.find(p);
        if (p.compare(0, 5, "/tmp/") == 0 && it != vfs.end() && --m == 0) {
            S->diskUsed -= it->second->data.size();
            vfs.erase(it);
            S->faults[F_FS]++;
            evs("cmdrm " + esc(p));
        }
    }
    // the command may be stopped and continued half-way: job control, of which the parent only hears when it asks for it
    auto job = [&](int st) { S->p[me].job = st; for (int i = 0; i < S->nproc; ++i) if (S->p[i].pid == S->p[me].ppid && S->p[i].state == BLOCK_) S->p[i].wake = S->now; };
    if (c.stop) {
        wait(c.dur / 3);
        evs("cmdstop " + std::to_string(c.stop));
        S->faults[F_CMDSTOP]++;
        job(c.stop << 8 | 0x7f);
        wait(c.dur / 3 + 1);
        evs("cmdcont");
        job(0xffff);
        wait(c.dur / 3);
    }
    else wait(c.dur);
    for (size_t i = 1; i < av.size(); ++i) {
        std::string p = norm(av[i].c_str());
        auto it = vfs.find(p);
        if (it == vfs.end() || it->second->kind == 'u') evs("cmdread2 " + std::to_string(i) + " " + esc(p) + " missing");
        else evs("cmdread2 " + std::to_string(i) + " " + esc(p) + " data " + esc(it->second->data));
    }
    int st = c.kind == 'k' ? c.code : (c.code & 0xff) << 8;
    if (c.kind == 'k') S->faults[F_CMDKILL]++; else if (c.code) S->faults[F_CMDFAIL]++;
    evs(std::string("cmdend ") + (c.kind == 'k' ? "signal " : "exit ") + std::to_string(c.code));
    goneExit("cmd", 0, "", st);
}
static pid_t simWait(pid_t pid, int *status, int options)
{
    sysEnter("wait");
    for (;;) {
        bool any = false;
        for (int i = 0; i < S->nproc; ++i) {
            if (S->p[i].ppid != S->p[me].pid || S->p[i].state == REAPED_) continue;
            if (pid > 0 && S->p[i].pid != pid) continue;
            any = true;
            if (S->p[i].state == ZOMB_) {
                S->p[i].state = REAPED_;
                if (status) *status = S->p[i].status;
                ev("wait %d = %d status=%d", pid, S->p[i].pid, S->p[i].status);
                return S->p[i].pid;
            }
            int job = S->p[i].job;
            if (job && (options & (job == 0xffff ? WCONTINUED : WUNTRACED))) {
                S->p[i].job = 0;
                if (status) *status = job;
                ev("wait %d = %d status=%d", pid, S->p[i].pid, job);
                return S->p[i].pid;
            }
        }
        if (!any) { ev("wait %d = %d", pid, -ECHILD); errno = ECHILD; return -1; }
        if (options & WNOHANG) return 0;
        where_ = "wait";
        ms_t t = nextActTime();
        blockUntil(std::max(t, S->now));
        stepActions();
        where_ = "run";
        if (deliver() == 2) { S->faults[F_WEINTR]++; ev("wait %d = %d", pid, -EINTR); errno = EINTR; return -1; }
    }
}

static int simPoll(struct pollfd *p, nfds_t n, int timeout)
{
    sysEnter("poll", timeout);
    ms_t dl = timeout < 0 ? MS_INF : S->now + timeout;
    for (;;) {
        int r = 0; bool tty = false;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            auto f = getfd(p[i].fd);
            if (!f) { p[i].revents = POLLNVAL; r++; continue; }
            if (f->kind == OpenFile::TTY) tty = true;
            if ((p[i].events & POLLIN) && readable(f)) p[i].revents |= POLLIN;
            if ((p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
            if (p[i].revents) r++;
        }
        if (r) return r;
        if (timeout == 0 || S->now >= dl) { if (timeout) S->faults[F_IDLE]++; return 0; }
        ms_t t = nextActTime();
        if (me == 0 && tty) {
            if (allDone() && S->now >= lastAct + P.settle) endIdle();
            if (allDone()) t = std::min(t, lastAct + P.settle);
            if (t > S->now && t <= dl && snapPending && !allDone()) { S->now = t; snapNow("poll"); snapPending = false; }
        }
        t = std::min(t, dl);
        if (t >= MS_INF && me == 0) endIdle();
        if (t > S->now) blockUntil(t);
        where_ = "poll";
        stepActions();
        where_ = "run";
        if (deliver()) { errno = EINTR; return -1; }
    }
}

// ================================================================ interposed C library surface
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
extern "C" {
// ---- stdio on simulated descriptors
struct Cookie { int fd; };
static ssize_t ckRead(void *c, char *b, size_t n) { K k; return simRead(((Cookie *)c)->fd, b, n); }
static ssize_t ckWrite(void *c, const char *b, size_t n)
{
    K k; size_t done = 0;
    while (done < n) { ssize_t r = simWrite(((Cookie *)c)->fd, b + done, n - done); if (r < 0) return done ? 0 : 0; done += r; }
    return done;
}
static int ckSeek(void *c, off64_t *o, int wh) { K k; off_t r = simSeek(((Cookie *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void *c) { K k; return simClose(((Cookie *)c)->fd); }
static FILE *mkFile(int fd, const char *mode)
{
    Cookie *c = (Cookie *)malloc(sizeof *c); c->fd = fd;
    cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
    FILE *f = fopencookie(c, mode, io);
    fmap[f] = fd;
    return f;
}
static int modeFlags(const char *m)
{
    int fl = 0; bool plus = strchr(m, '+');
    if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}
FILE *fopen(const char *path, const char *mode)
{
    if (PASS || realPath(path)) return REAL(fopen)(path, mode);
    K k;
    int fd = simOpen(path, modeFlags(mode), 0666);
    if (fd < 0) return nullptr;
    return mkFile(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *fdopen(int fd, const char *mode) noexcept { if (PASS) return REAL(fdopen)(fd, mode); K k; return getfd(fd) ? mkFile(fd, mode) : nullptr; }
FILE *freopen(const char *, const char *, FILE *) { errno = ENOSYS; return nullptr; }
FILE *tmpfile(void) { errno = ENOSYS; return nullptr; }
FILE *popen(const char *, const char *) { errno = ENOSYS; return nullptr; }
int fileno(FILE *f) noexcept
{
    if (!g_active && fmap.empty()) return REAL(fileno)(f);
    auto it = fmap.find(f);
    return it == fmap.end() ? REAL(fileno)(f) : it->second;
}
int fileno_unlocked(FILE *f) noexcept { return fileno(f); }
int fclose(FILE *f)
{
    if (g_active && !g_in_kernel && fmap.count(f)) { K k; fmap.erase(f); }
    return REAL(fclose)(f);
}

// ---- descriptors
static bool simfd(int fd) { return fds.count(fd) || fd < 3 || fd >= 1000; }
int open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (PASS || (realPath(path) && (flags & O_ACCMODE) == O_RDONLY)) return syscall(SYS_openat, AT_FDCWD, path, flags, m);
    K k; return simOpen(path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    return open(path, flags, m);
}
int openat(int d, const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (PASS) return syscall(SYS_openat, d, path, flags, m);
    return open(path, flags, m);
}
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (PASS || !simfd(fd)) return syscall(SYS_close, fd); K k; return simClose(fd); }
ssize_t read(int fd, void *b, size_t n) { if (PASS || !simfd(fd)) return syscall(SYS_read, fd, b, n); K k; return simRead(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (PASS || !simfd(fd)) return syscall(SYS_write, fd, b, n); K k; return simWrite(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (PASS || !simfd(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; ++i) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (PASS || !simfd(fd)) return syscall(SYS_writev, fd, v, c);
    K k; std::string all;
    for (int i = 0; i < c; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
    return simWrite(fd, all.data(), all.size());
}
off_t lseek(int fd, off_t o, int w) noexcept { if (PASS || !simfd(fd)) return syscall(SYS_lseek, fd, o, w); K k; return simSeek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fsync(int fd) { if (PASS || !simfd(fd)) return syscall(SYS_fsync, fd); K k; sysEnter("fsync"); return 0; }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) noexcept { if (PASS || !simfd(fd)) return syscall(SYS_ftruncate, fd, n); K k; auto f = getfd(fd); if (!f || !f->node) { errno = EBADF; return -1; } f->node->data.resize(n); return 0; }
static int dupTo(int fd, int to)
{
    auto f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    fds[to] = f; return to;
}
int dup(int fd) noexcept { if (PASS) return syscall(SYS_dup, fd); K k; int n = 1000; while (fds.count(n)) n++; return dupTo(fd, n); }
int dup2(int fd, int to) noexcept { if (PASS) return syscall(SYS_dup3, fd, to, 0); K k; return dupTo(fd, to); }
int pipe(int *) noexcept { errno = ENFILE; return -1; }
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (PASS || !simfd(fd)) return syscall(SYS_fcntl, fd, cmd, a);
    K k; auto f = getfd(fd); if (!f) { errno = EBADF; return -1; }
    switch (cmd) { case F_GETFL: return f->flags; case F_SETFL: case F_SETFD: return 0; case F_GETFD: return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = 1000; while (fds.count(n)) n++; return dupTo(fd, n); } }
    errno = EINVAL; return -1;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }

// ---- metadata
static int simStat(const char *path, struct stat *st)
{
    K k; std::string p = norm(path); sysEnter("stat");
    auto it = vfs.find(p);
    if (p == "/dev/tty") { OpenP f = std::make_shared<OpenFile>(); f->kind = OpenFile::TTY; fillStat(st, f, nullptr); return 0; }
    if (it == vfs.end()) { errno = ENOENT; return -1; }
    fillStat(st, nullptr, it->second); return 0;
}
int stat(const char *p, struct stat *st) noexcept { if (PASS || realPath(norm(p))) return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); return simStat(p, st); }
int lstat(const char *p, struct stat *st) noexcept { if (PASS || realPath(norm(p))) return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); return simStat(p, st); }
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, (struct stat *)st); }
int fstat(int fd, struct stat *st) noexcept
{
    if (PASS || !simfd(fd)) return syscall(SYS_fstat, fd, st);
    K k; auto f = getfd(fd); if (!f) { errno = EBADF; return -1; } fillStat(st, f, f->node); return 0;
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int access(const char *p, int m) noexcept
{
    if (PASS || realPath(norm(p))) return syscall(SYS_faccessat, AT_FDCWD, p, m, 0);
    K k; std::string q = norm(p); sysEnter("access");
    auto it = vfs.find(q);
    if (q == "/dev/tty") return 0;
    if (it == vfs.end()) { errno = ENOENT; return -1; }
    if ((it->second->kind == 'u' && m != F_OK) || (it->second->kind == 'r' && (m & W_OK))) { errno = EACCES; return -1; }
    return 0;
}
int unlink(const char *p) noexcept { if (PASS) return syscall(SYS_unlinkat, AT_FDCWD, p, 0); K k; return simUnlink(p); }
int unlinkat(int, const char *p, int) noexcept { if (PASS) { errno = ENOSYS; return -1; } K k; return simUnlink(p); }
int remove(const char *p) noexcept { if (PASS) { errno = ENOSYS; return -1; } K k; return simUnlink(p); }
int rename(const char *a, const char *b) noexcept
{
    if (PASS) { errno = ENOSYS; return -1; }
    K k; sysEnter("rename"); std::string x = norm(a), y = norm(b);
    evs("rename " + esc(x) + " " + esc(y));
    auto it = vfs.find(x); if (it == vfs.end()) { errno = ENOENT; return -1; }
    NodeP n = it->second; vfs.erase(it); vfs[y] = n; return 0;
}
int mkdir(const char *p, mode_t) noexcept { if (PASS) { errno = ENOSYS; return -1; } K k; sysEnter("mkdir"); std::string q = norm(p); if (vfs.count(q)) { errno = EEXIST; return -1; }
    NodeP n = std::make_shared<FileNode>(); n->id = ++S->nextNode; n->kind = 'd'; n->creator = me; vfs[q] = n; evs("mkdir " + esc(q)); return 0; }
int rmdir(const char *p) noexcept { if (PASS) { errno = ENOSYS; return -1; } K k; sysEnter("rmdir"); vfs.erase(norm(p)); return 0; }
int truncate(const char *, off_t) noexcept { errno = ENOSYS; return -1; }
int link(const char *, const char *) noexcept { errno = ENOSYS; return -1; }
int symlink(const char *, const char *) noexcept { errno = ENOSYS; return -1; }
int chmod(const char *p, mode_t m) noexcept { if (PASS) { errno = ENOSYS; return -1; } K k; auto it = vfs.find(norm(p)); if (it == vfs.end()) { errno = ENOENT; return -1; }
    if (strchr("fru", it->second->kind)) it->second->kind = kindOf(m); return 0; }
int chown(const char *, uid_t, gid_t) noexcept { errno = ENOSYS; return -1; }
int fchmod(int fd, mode_t m) noexcept { if (PASS) return 0; K k; auto f = getfd(fd); if (f && f->node && strchr("fru", f->node->kind)) f->node->kind = kindOf(m); return 0; }
mode_t umask(mode_t m) noexcept { mode_t o = umask_; umask_ = m & 0777; return o; }
static int simMkstemp(char *t, int suf, int extra)
{
    K k; size_t l = strlen(t);
    if (l < (size_t)(6 + suf)) { errno = EINVAL; return -1; }
    char *x = t + l - 6 - suf;
    for (int i = 0; i < 1000; ++i) {
        unsigned v = (unsigned)(S->gsys * 2654435761u + S->p[me].pid * 40503u + i);
        for (int j = 0; j < 6; ++j) { x[j] = 'a' + v % 26; v = v / 26 + 17 * j; }
        int fd = simOpen(t, O_RDWR | O_CREAT | O_EXCL | extra, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
int mkstemp(char *t) { if (PASS) { errno = ENOSYS; return -1; } return simMkstemp(t, 0, 0); }
int mkstemp64(char *t) { return mkstemp(t); }
int mkstemps(char *t, int s) { if (PASS) { errno = ENOSYS; return -1; } return simMkstemp(t, s, 0); }
int mkstemps64(char *t, int s) { return mkstemps(t, s); }
int mkostemp(char *t, int f) { if (PASS) { errno = ENOSYS; return -1; } return simMkstemp(t, 0, f & O_APPEND); }
char *mkdtemp(char *t) noexcept { if (PASS) { errno = ENOSYS; return nullptr; } K k; size_t l = strlen(t); for (int j = 0; j < 6; ++j) t[l - 6 + j] = 'a' + (S->gsys + j * 7) % 26; mkdir(t, 0700); g_in_kernel--; int r = mkdir(t, 0700); g_in_kernel++; return r == 0 ? t : nullptr; }

// ---- terminal
int isatty(int fd) noexcept { if (PASS) { struct termios t; return syscall(SYS_ioctl, fd, TCGETS, &t) == 0; } K k; auto f = getfd(fd); if (f && f->kind == OpenFile::TTY) return 1; errno = f ? ENOTTY : EBADF; return 0; }
int tcgetattr(int fd, struct termios *t) noexcept { if (PASS) { errno = ENOTTY; return -1; } K k; auto f = getfd(fd); if (!f || f->kind != OpenFile::TTY) { errno = f ? ENOTTY : EBADF; return -1; } *t = tio; return 0; }
int tcsetattr(int fd, int act, const struct termios *t) noexcept
{
    if (PASS) { errno = ENOTTY; return -1; }
    K k; auto f = getfd(fd); if (!f || f->kind != OpenFile::TTY) { errno = f ? ENOTTY : EBADF; return -1; }
    sysEnter("tcsetattr");
    if (act == TCSAFLUSH) ttyq.clear();
    tio = *t;
    ev("tcsetattr %s", (tio.c_lflag & (ICANON | ECHO)) == (ICANON | ECHO) ? "sane" : "raw");
    return 0;
}
int tcflush(int fd, int q) noexcept { if (PASS) { errno = ENOTTY; return -1; } K k; auto f = getfd(fd); if (!f || f->kind != OpenFile::TTY) { errno = ENOTTY; return -1; } if (q != TCOFLUSH) ttyq.clear(); return 0; }
int tcdrain(int) { return 0; }
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    if (PASS || !simfd(fd)) return syscall(SYS_ioctl, fd, req, a);
    K k; auto f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    if (req == TIOCGWINSZ) { if (f->kind != OpenFile::TTY) { errno = ENOTTY; return -1; } struct winsize *w = (struct winsize *)a; memset(w, 0, sizeof *w); w->ws_row = T.rows; w->ws_col = T.cols; return 0; }
    if (req == FIONREAD) { *(int *)a = f->kind == OpenFile::TTY ? (int)ttyq.size() : f->kind == OpenFile::INPIPE ? (int)(f->src.size() - offOf(f)) : f->node ? (int)(f->node->data.size() - std::min(offOf(f), f->node->data.size())) : 0; return 0; }
    errno = ENOTTY; return -1;
}
char *ttyname(int) noexcept { static char n[] = "/dev/pts/7"; return n; }
int poll(struct pollfd *p, nfds_t n, int t) { if (PASS) return syscall(SYS_poll, p, n, t); K k; return simPoll(p, n, t); }
int __poll_chk(struct pollfd *p, nfds_t n, int t, size_t) { return poll(p, n, t); }
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return poll(p, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1); }
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    if (PASS) return syscall(SYS_select, n, r, w, x, tv);
    K k; std::vector<struct pollfd> v;
    for (int i = 0; i < n && i < 1024; ++i) { short e = 0; if (r && FD_ISSET(i, r)) e |= POLLIN; if (w && FD_ISSET(i, w)) e |= POLLOUT; if (e) v.push_back({ i, e, 0 }); }
    int rc = simPoll(v.data(), v.size(), tv ? tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000 : -1);
    if (rc < 0) return rc;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
    for (auto &p : v) { if (p.revents & POLLIN) FD_SET(p.fd, r); if (p.revents & POLLOUT) FD_SET(p.fd, w); }
    return rc;
}

// ---- time
static const time_t EPOCH0 = 1700000000;
time_t time(time_t *t) noexcept { time_t v = g_active ? EPOCH0 + S->now / 1000 : EPOCH0; if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *) noexcept { tv->tv_sec = time(nullptr); tv->tv_usec = g_active ? (S->now % 1000) * 1000 : 0; return 0; }
int clock_gettime(clockid_t, struct timespec *ts) noexcept { ts->tv_sec = time(nullptr); ts->tv_nsec = g_active ? (S->now % 1000) * 1000000 : 0; return 0; }
clock_t clock(void) noexcept { return g_active ? S->now * 1000 : 0; }
static int simSleep(ms_t d) { K k; sysEnter("sleep"); ms_t end = S->now + d; while (S->now < end) { where_ = "poll"; ms_t t = std::min(end, nextActTime()); if (t > S->now) blockUntil(t); stepActions(); where_ = "run"; if (deliver()) { errno = EINTR; return -1; } } return 0; }
int nanosleep(const struct timespec *r, struct timespec *rem) { if (PASS) return syscall(SYS_nanosleep, r, rem); if (rem) memset(rem, 0, sizeof *rem); return simSleep(r->tv_sec * 1000 + (r->tv_nsec + 999999) / 1000000); }
int clock_nanosleep(clockid_t, int fl, const struct timespec *r, struct timespec *rem) { if (PASS || fl) return EINVAL; return nanosleep(r, rem) ? EINTR : 0; }
int usleep(useconds_t u) { struct timespec ts = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = { (time_t)s, 0 }; nanosleep(&ts, nullptr); return 0; }
unsigned alarm(unsigned) noexcept { return 0; }
int setitimer(__itimer_which_t, const struct itimerval *, struct itimerval *) noexcept { errno = ENOSYS; return -1; }
int pause(void) { if (PASS) { errno = EINTR; return -1; } simSleep(MS_INF / 4); errno = EINTR; return -1; }

// ---- identity, randomness
pid_t getpid(void) noexcept { return g_active ? S->p[me].pid : (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) noexcept { return g_active ? S->p[me].ppid : (pid_t)syscall(SYS_getppid); }
pid_t getpgrp(void) noexcept { return g_active ? 4000 : (pid_t)syscall(SYS_getpgid, 0); }
pid_t tcgetpgrp(int) noexcept { return 4000; }
ssize_t getrandom(void *b, size_t n, unsigned) { if (PASS) return syscall(SYS_getrandom, b, n, 0); for (size_t i = 0; i < n; ++i) ((unsigned char *)b)[i] = (unsigned char)(S->gsys * 37 + me * 101 + i * 13 + 7); K k; sysEnter("getrandom"); return n; }
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
uint32_t arc4random(void) noexcept { uint32_t v = 4; getrandom(&v, 4, 0); return v; }

// ---- signals
int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept
{
    if (PASS) return REAL(sigaction)(s, a, o);
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) *o = acts[s];
    if (a) {
        if (s == SIGKILL || s == SIGSTOP) { errno = EINVAL; return -1; }
        acts[s] = *a;
        K k; ev("sigaction %s %s", sigNm(s), a->sa_handler == SIG_DFL ? "dfl" : a->sa_handler == SIG_IGN ? "ign" : "fn");
    }
    return 0;
}
static sighandler_t simSignal(int s, sighandler_t h, int fl)
{
    struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = fl;
    if (sigaction(s, &a, &o) < 0) return SIG_ERR;
    return o.sa_handler;
}
sighandler_t signal(int s, sighandler_t h) noexcept { if (PASS) return REAL(signal)(s, h); return simSignal(s, h, SA_RESTART); }
sighandler_t bsd_signal(int s, sighandler_t h) noexcept { return signal(s, h); }
sighandler_t sysv_signal(int s, sighandler_t h) noexcept { return simSignal(s, h, SA_RESETHAND | SA_NODEFER); }
sighandler_t __sysv_signal(int s, sighandler_t h) noexcept { return simSignal(s, h, SA_RESETHAND | SA_NODEFER); }
int siginterrupt(int s, int f) noexcept { if (f) acts[s].sa_flags &= ~SA_RESTART; else acts[s].sa_flags |= SA_RESTART; return 0; }
int sigprocmask(int how, const sigset_t *set, sigset_t *old) noexcept
{
    if (PASS) return syscall(SYS_rt_sigprocmask, how, set, old, 8);
    K k; uint64_t om = sigmask_;
    if (set) {
        uint64_t m = 0; for (int i = 1; i < 65; ++i) if (sigismember(set, i) == 1 && i != SIGKILL && i != SIGSTOP) m |= 1ull << i;
        if (how == SIG_BLOCK) sigmask_ |= m; else if (how == SIG_UNBLOCK) sigmask_ &= ~m; else sigmask_ = m;
    }
    if (old) { sigemptyset(old); for (int i = 1; i < 65; ++i) if (om >> i & 1) sigaddset(old, i); }
    sysEnter("sigprocmask");
    return 0;
}
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) noexcept { return sigprocmask(how, s, o); }
int kill(pid_t pid, int sig) noexcept
{
    if (PASS) { errno = EPERM; return -1; }
    K k; sysEnter("kill");
    evs("kill " + std::to_string(pid) + " " + sigNm(sig));
    bool hit = false;
    for (int i = 0; i < S->nproc; ++i) if ((S->p[i].pid == pid || pid == 0 || pid == -1) && (S->p[i].state == RUN_ || S->p[i].state == BLOCK_)) {
        hit = true; if (sig) { raiseTo(i, sig); if (i != me && S->p[i].state == BLOCK_) S->p[i].wake = S->now; } }
    if (!hit) { errno = ESRCH; return -1; }
    deliver();
    return 0;
}
int raise(int sig) noexcept { if (PASS) return REAL(raise)(sig); return kill(S->p[me].pid, sig); }
int killpg(int, int sig) noexcept { return kill(0, sig); }

// ---- processes
pid_t fork(void) noexcept { if (PASS) return _Fork(); K k; int r = simFork(); return r; }
pid_t vfork(void) noexcept { return fork(); }
int execvp(const char *f, char *const av[]) noexcept { if (PASS) { errno = ENOSYS; return -1; } K k; return simExec(f, av); }
int execv(const char *f, char *const av[]) noexcept { return execvp(f, av); }
int execve(const char *f, char *const av[], char *const *) noexcept { return execvp(f, av); }
int execvpe(const char *f, char *const av[], char *const *) noexcept { return execvp(f, av); }
pid_t waitpid(pid_t p, int *s, int o) { if (PASS) return syscall(SYS_wait4, p, s, o, nullptr); K k; return simWait(p, s, o); }
pid_t wait(int *s) { return waitpid(-1, s, 0); }
pid_t wait4(pid_t p, int *s, int o, struct rusage *) { return waitpid(p, s, o); }
int system(const char *) { errno = ENOSYS; return -1; }
int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const av[], char *const *)
{
    if (PASS) return ENOSYS;
    K k; int r = simFork();
    if (r < 0) return errno;
    if (r == 0) { simExec(f, av); goneExit("exit", 127, "", 127 << 8); }
    if (pid) *pid = r;
    return 0;
}
int posix_spawn(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const *e) { return posix_spawnp(pid, f, fa, at, av, e); }
void _exit(int rc) { if (PASS) realExit(rc); goneExit("exit", rc & 0xff, "_exit", (rc & 0xff) << 8); }
void _Exit(int rc) noexcept { _exit(rc); }
void abort(void) noexcept { if (g_active && !g_in_kernel) { g_in_kernel++; endRun("crash", 6, "abort() called"); } syscall(SYS_kill, syscall(SYS_getpid), SIGABRT); realExit(134); }

// ---- coverage callbacks: every executed edge of the program
static void edgeSlow()
{
    K k;
    if (g_edges >= P.maxEdges) endRun("hang", g_edges, "code edge budget exceeded");
    const char *ow = where_; where_ = "edge";
    stepActions();
    where_ = ow;
    int se = errno; deliver(); errno = se;
}
extern char __executable_start;
static __attribute__((noinline)) NOSAN void dirtyFrames()
{
    char buf[1536];
    static const unsigned char with[] = { 0, 0xff, 0x01, 0xbe };
    memset(buf, P.heapFill < 4 ? with[P.heapFill] : (int)(g_edges * 37), g_stackFill < (long)sizeof buf ? g_stackFill : sizeof buf);
    asm volatile("" : : "r"(buf) : "memory");
}
NOSAN void __sanitizer_cov_trace_pc(void)
{
    if (!g_active) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
    S->edges[(pc * 0x9E3779B97F4A7C15ull) >> 50] = 1;
    if (g_stackFill) dirtyFrames(); // what the next called functions find in their frames
    if (++g_edges >= g_edgeStop && !g_in_kernel) edgeSlow();
}
const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1:handle_segv=1:handle_sigfpe=1:symbolize=0:detect_stack_use_after_return=0:allocator_may_return_null=0:max_malloc_fill_size=4096:malloc_fill_byte=190:max_free_fill_size=0:print_legend=0:print_scariness=0:print_full_thread_history=0:allocation_size_too_big=1:detect_container_overflow=0:strict_string_checks=0:use_sigaltstack=1:halt_on_error=1:quarantine_size_mb=8"; }
const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77:symbolize=0"; }
} // extern "C"

// std::random_device, should the program ever use it
unsigned rdGet(void *) asm("_ZNSt13random_device9_M_getvalEv");
unsigned rdGet(void *) { unsigned v = 4; getrandom(&v, 4, 0); return v; }

// ================================================================ set-up of one run
static __gnu_cxx::stdio_sync_filebuf<char> *bIn, *bOut, *bErr;
static void wireStd(const Plan::Inst &in)
{
    auto mk = [&](const std::string &kind, const char *name, int no) {
        OpenP f = std::make_shared<OpenFile>();
        f->path = name; f->shid = newOff(); f->outNo = no;
        if (kind == "tty") { f->kind = OpenFile::TTY; f->flags = O_RDWR; }
        else if (kind == "null") { f->kind = OpenFile::NUL; f->flags = O_RDWR; }
        else { f->kind = no ? OpenFile::OUT : OpenFile::INPIPE; f->flags = no ? O_WRONLY : O_RDONLY; }
        return f;
    };
    fds[0] = mk(in.stdinKind, "<stdin>", 0);
    fds[0]->src = in.stdinData; fds[0]->hold = in.stdinHold;
    fds[1] = mk(in.stdoutKind, "<stdout>", 1);
    fds[2] = mk("pipe", "<stderr>", 2);
    stdin = mkFile(0, "r"); stdout = mkFile(1, "w"); stderr = mkFile(2, "w");
    if (in.stdoutKind == "tty") setvbuf(stdout, nullptr, _IOLBF, 1024); else setvbuf(stdout, nullptr, _IOFBF, 4096);
    setvbuf(stderr, nullptr, _IONBF, 0);
    bIn = new __gnu_cxx::stdio_sync_filebuf<char>(stdin);
    bOut = new __gnu_cxx::stdio_sync_filebuf<char>(stdout);
    bErr = new __gnu_cxx::stdio_sync_filebuf<char>(stderr);
    std::cin.rdbuf(bIn); std::cout.rdbuf(bOut); std::cerr.rdbuf(bErr); std::clog.rdbuf(bErr);
}
static __attribute__((noinline)) NOSAN void dirtyStack()
{
    char buf[200 * 1024];
    fill_garbage(buf, sizeof buf);
    asm volatile("" : : "r"(buf) : "memory");
}

static void childMain()
{
    g_in_kernel = 1;
    memset(&tio, 0, sizeof tio);
    tio.c_iflag = ICRNL | IXON; tio.c_oflag = OPOST | ONLCR; tio.c_cflag = CS8 | CREAD | B38400; tio.c_lflag = ICANON | ECHO | ISIG | ECHOE | ECHOK | IEXTEN;
    tio.c_cc[VINTR] = 3; tio.c_cc[VQUIT] = 28; tio.c_cc[VERASE] = 127; tio.c_cc[VKILL] = 21; tio.c_cc[VEOF] = 4; tio.c_cc[VSUSP] = 26; tio.c_cc[VMIN] = 1;
    cfsetispeed(&tio, B38400); cfsetospeed(&tio, B38400);
    T.init(P.rows, P.cols);
    for (int i = 0; i < 65; ++i) { memset(&acts[i], 0, sizeof acts[i]); acts[i].sa_handler = SIG_DFL; }
    for (const char *d : { "/", "/w", "/tmp", "/dev" }) { NodeP n = std::make_shared<FileNode>(); n->id = ++S->nextNode; n->kind = 'd'; vfs[d] = n; }
    for (auto &f : P.files) {
        std::string p = norm(f.path.c_str());
        if (f.kind == '-') { vfs.erase(p); continue; }
        NodeP n = std::make_shared<FileNode>(); n->id = ++S->nextNode; n->kind = f.kind; n->data = f.data;
        for (std::string d = dirOf(p); d != "/"; d = dirOf(d)) if (!vfs.count(d)) { NodeP m = std::make_shared<FileNode>(); m->id = ++S->nextNode; m->kind = 'd'; vfs[d] = m; }
        vfs[p] = n;
    }
    clearenv();
    setenv("TERM", P.term.c_str(), 1);
    for (auto &e : P.env) setenv(e.first.c_str(), e.second.c_str(), 1);
    S->token = 0; S->nextPid = 4242; S->nextOff = 1;
    int ni = (int)P.inst.size();
    for (int i = 0; i < ni; ++i) {
        ProcSlot &s = S->p[i];
        s.state = RUN_; s.pid = S->nextPid++; s.ppid = 1; s.inst = i;
    }
    S->nproc = ni;
    vfsSave();
    for (int i = 1; i < ni; ++i) if (_Fork() == 0) { me = i; S->p[i].real = 0; break; }
    heap_start(P.heapSeed + me * 7919, P.heapMode, P.heapFill);
    std::set_terminate(onTerminate);
    __sanitizer_set_death_callback(onDeath);
    wireStd(P.inst[me].stdinKind.empty() ? P.inst[0] : P.inst[me]);
    static std::vector<std::string> av = P.inst[me].args;
    static std::vector<char *> argv;
    for (auto &a : av) argv.push_back(strdup(a.c_str()));
    argv.push_back(nullptr);
    if (me != 0) awaitToken();
    dirtyStack();
    g_stackFill = P.stackFill;
    arm();
    g_edges = 0; g_allocs = 0;
    arm();
    g_in_kernel = 0;
    g_active = true;
    errno = 0;
    exit(jsonstroll_main((int)av.size(), argv.data()));
}

// ---------------------------------------------------------------- plan text
static std::vector<std::string> split(const std::string &l)
{
    std::vector<std::string> v; size_t i = 0;
    while (i < l.size()) { while (i < l.size() && l[i] == ' ') i++; size_t j = l.find(' ', i); if (j == std::string::npos) j = l.size(); if (j > i) v.push_back(l.substr(i, j - i)); i = j; }
    return v;
}
static bool planLine(const std::string &line)
{
    std::vector<std::string> w = split(line);
    if (w.empty() || w[0][0] == '#') return true;
    auto L = [&](size_t i, long d = 0) { return i < w.size() ? strtol(w[i].c_str(), nullptr, 0) : d; };
    auto STR = [&](size_t i) { return i < w.size() ? unesc(w[i]) : std::string(); };
    const std::string &c = w[0];
    if (P.inst.empty()) P.inst.emplace_back();
    if (c == "proc") P.inst.emplace_back();
    else if (c == "arg") { for (size_t i = 1; i < w.size(); ++i) P.inst.back().args.push_back(STR(i)); }
    else if (c == "stdin") { P.inst.back().stdinKind = w[1]; P.inst.back().stdinData = STR(2); P.inst.back().stdinHold = w.size() > 3 && w[3] == "hold"; }
    else if (c == "stdout") P.inst.back().stdoutKind = w[1];
    else if (c == "env") P.env.push_back({ STR(1), STR(2) });
    else if (c == "file") P.files.push_back({ STR(1), STR(3), w[2][0] });
    else if (c == "rule") { Rule r; r.kind = w[1]; r.pat = STR(2); r.a = L(3); r.err = L(4); r.count = L(5, -1); P.rules.push_back(r); }
    else if (c == "rscript" || c == "wscript") {
        std::vector<RChunk> v; for (size_t i = 2; i + 1 < w.size(); i += 2) v.push_back({ L(i), L(i + 1) });
        if (c == "rscript") P.rscripts.push_back({ STR(1), v }); else P.wscripts.push_back({ STR(1), v });
    }
    else if (c == "cmd") { CmdPlan m; m.read = L(1); m.dur = L(2); m.kind = w[3][0]; m.code = L(4); m.forkErr = L(5); m.execErr = L(6); if (w.size() > 7) m.stop = L(7); if (w.size() > 8) m.rm = L(8); P.cmds.push_back(m); }
    else if (c == "heap") { P.heapSeed = strtoull(w[1].c_str(), nullptr, 0); P.heapMode = L(2); P.heapFill = L(3); }
    else if (c == "stack") P.stackFill = L(1);
    else if (c == "term") { P.term = STR(1); P.rows = L(2); P.cols = L(3); }
    else if (c == "notty") P.notty = true;
    else if (c == "ttydelay") P.ttydelay = L(1);
    else if (c == "limit") { if (w[1] == "edges") P.maxEdges = L(2); else if (w[1] == "sys") P.maxSys = L(2); else if (w[1] == "settle") P.settle = L(2); else if (w[1] == "time") P.maxTime = L(2); }
    else if (c == "nosnaps") P.snaps = false;
    else if (c == "verbose") P.verbose = true;
    else if (c == "sched") P.sched.push_back({ L(1), (int)L(2) });
    else if (c == "act") {
        Action a; a.gap = L(1); a.edge = L(2);
        const std::string &k = w[3];
        if (k == "key") { a.kind = Action::KEY; a.bytes = STR(4); a.inter = L(5); }
        else if (k == "sig") { a.kind = Action::SIG; a.sig = L(4); }
        else if (k == "resize") { a.kind = Action::RESIZE; a.rows = L(4); a.cols = L(5); a.flag = L(6); }
        else if (k == "stop") { a.kind = Action::STOP; a.flag = L(4); }
        else if (k == "cont") a.kind = Action::CONT;
        else if (k == "fscreate") { a.kind = Action::FSCREATE; a.bytes = STR(4); a.data = STR(5); a.flag = w.size() > 6 ? w[6][0] : 0; }
        else if (k == "fsunlink") { a.kind = Action::FSUNLINK; a.bytes = STR(4); }
        else if (k == "nop") a.kind = Action::NOP;
        else return false;
        P.acts.push_back(a);
    }
    else return false;
    return true;
}

static void wrAll(const std::string &s) { size_t o = 0; while (o < s.size()) { long r = syscall(SYS_write, 1, s.data() + o, s.size() - o); if (r <= 0) realExit(1); o += r; } }

static void runPlan()
{
    memset(S, 0, offsetof(Shm, vfs));
    S->hash = S->ilv = 1469598103934665603ull;
    syscall(SYS_ftruncate, g_tmpErr, 0); syscall(SYS_lseek, g_tmpErr, 0, SEEK_SET);
    pid_t pid = _Fork();
    if (pid == 0) {
        syscall(SYS_setpgid, 0, 0);
        syscall(SYS_dup3, g_tmpErr, 2, 0);
        int dn = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
        syscall(SYS_dup3, dn, 0, 0); syscall(SYS_dup3, dn, 1, 0);
        struct rlimit rl = { 0, 0 }; syscall(SYS_setrlimit, RLIMIT_CORE, &rl);
        syscall(SYS_alarm, 40);
        childMain();
        realExit(96);
    }
    int st = 0;
    while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
    // other processes of the run may still be going
    bool dead = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) < 100);
    for (int i = 0; i < 15000 && !S->abortRun && !dead; ++i) {
        struct timespec ts = { 0, 500000 }; syscall(SYS_nanosleep, &ts, nullptr);
    }
    if (!S->abortRun && !dead) strcpy(S->fatal, "harness-lost");
    syscall(SYS_kill, -pid, SIGKILL);
    while (syscall(SYS_wait4, -pid, &st, 0, nullptr) > 0) {}
    std::string r;
    char b[256];
    if (WIFSIGNALED(st) && !S->fatal[0]) snprintf(S->fatal, sizeof S->fatal, "harness-sig%d", WTERMSIG(st));
    else if (WIFEXITED(st) && WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) < 100 && !S->fatal[0]) snprintf(S->fatal, sizeof S->fatal, "harness-exit%d", WEXITSTATUS(st));
    snprintf(b, sizeof b, "R hash=%016llx ilv=%016llx now=%lld gsys=%ld verdict=%s full=%d\n", (unsigned long long)S->hash, (unsigned long long)S->ilv, (long long)S->now, S->gsys, S->fatal[0] ? S->fatal : "ok", (int)S->logFull);
    r += b;
    for (int i = 0; faultNames[i]; ++i) if (S->faults[i]) r += "X " + std::string(faultNames[i]) + " " + std::to_string(S->faults[i]) + "\n";
    { std::string hx; static const char *d = "0123456789abcdef"; unsigned n = MAXEDGE;
      for (unsigned i = 0; i < n; i += 4) { int v = 0; for (unsigned j = 0; j < 4 && i + j < n; ++j) v |= S->edges[i + j] << j; hx += d[v]; } r += "C " + hx + "\n"; }
    // files left behind
    if (S->vfsLen) { vfs.clear(); fds.clear(); vfsLoad(); for (auto &it : vfs) r += "V " + esc(it.first) + " " + it.second->kind + " " + std::to_string(it.second->creator) + " " + esc(it.second->data) + "\n"; vfs.clear(); S->vfsLen = 0; }
    r.append(S->log, S->logLen);
    { char eb[20000]; syscall(SYS_lseek, g_tmpErr, 0, SEEK_SET); long n = syscall(SYS_read, g_tmpErr, eb, sizeof eb); if (n > 0) r += "A " + esc(std::string(eb, n)) + "\n"; }
    wrAll("RESULT " + std::to_string(r.size()) + "\n" + r);
}

int main(int, char **av)
{
    g_in_kernel = 1;
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("JSIM_NOPERS") && personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
        setenv("JSIM_NOPERS", "1", 1);
        struct rlimit sl;           // frames of the sanitized program are about four times those of the shipped one
        if (syscall(SYS_getrlimit, RLIMIT_STACK, &sl) == 0) { sl.rlim_cur = std::min<rlim_t>(sl.rlim_max, 32 << 20); syscall(SYS_setrlimit, RLIMIT_STACK, &sl); }
        char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        if (n > 0) { exe[n] = 0; syscall(SYS_execve, exe, av, environ); }
    }
    setlocale(LC_ALL, "C");
    S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_tmpErr = syscall(SYS_memfd_create, "jsimerr", 0);
    heap_reserve();
    std::string buf; char tmp[65536];
    for (;;) {
        size_t nl;
        while ((nl = buf.find('\n')) == std::string::npos) {
            long n = syscall(SYS_read, 0, tmp, sizeof tmp);
            if (n <= 0) realExit(0);
            buf.append(tmp, n);
        }
        std::string l = buf.substr(0, nl); buf.erase(0, nl + 1);
        if (l == "run") { runPlan(); P = Plan(); }
        else if (l == "quit") realExit(0);
        else if (!planLine(l)) { wrAll("BADPLAN " + l + "\n"); realExit(2); }
    }
}

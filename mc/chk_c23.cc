// C23: memory safety. Executions of the program and its tools in builds where every access is seen.
#include "comp.hh"
#include <cstring>
#include <cstdlib>
#include <map>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <cerrno>
using namespace rt;
namespace {
// what one execution leaves: its ending, the files and the text
std::string digest(const char *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return fmt("%zu:%016lx", n, h); }
void leave(int nr)
{
    std::string b; auto put = [&](const std::string &k, const std::string &v) { b += k + "\n" + fmt("%zu\n", v.size()) + v; };
    for (auto &f : files()) if (f.first != "in.pmesh") { put("file " + f.first, f.second.size() < 60000 ? std::string(f.second.begin(), f.second.end()) : digest(f.second.data(), f.second.size())); }
    for (int r = 0; r < nr; r++) put(fmt("output of rank %d", r), captured(r));
    put("output of a tool", memText); put("files on disk", fmt("%016llx", g_diskSeen));
    if (b.size() > sizeof sh->blob) b = digest(b.data(), b.size());
    memcpy(sh->blob, b.data(), b.size()); sh->blobLen = b.size();
}
struct End { int status; std::string msg, blob; double cpu; };
volatile int *slow = nullptr;      // executions that did not end so far, over all workers
End once(const std::function<void()> &body, const char *variant, int fill, double limit)
{
    sh->status = ST_RUNNING; sh->msg[0] = 0; sh->nPts = 0; sh->full = 0; sh->blobLen = 0; sh->outcomeHash = 0;
    struct rusage u0, u1; getrusage(RUSAGE_CHILDREN, &u0);
    pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)limit + 1; setitimer(ITIMER_PROF, &it, nullptr);
        g_variant = variant; g_watchDisk = true; memStart(fill); body();
        sh->userCount[UC_A] += memStats().blocks; sh->userCount[UC_B] += memStats().checked; sh->userCount[UC_C] += memStats().releases; sh->userCount[UC_D] += memStats().unwatched;
        if (sh->status == ST_RUNNING) { memOn = false; leave(rankCount()); sh->status = ST_OK; } _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { int g = WTERMSIG(st); bool mem = g == SIGSEGV || g == SIGBUS || g == SIGILL || g == SIGFPE; sh->status = mem ? ST_MEM : ST_HANG; snprintf(sh->msg, sizeof sh->msg, "signal %d (%s)", g, strsignal(g)); }
    else if (sh->status == ST_RUNNING) sh->status = ST_EXIT;
    getrusage(RUSAGE_CHILDREN, &u1); auto t = [](const struct rusage &u) { return u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec); };
    return {sh->status, sh->msg, std::string(sh->blob, sh->blobLen), t(u1) - t(u0)};
}
std::string difference(const std::string &a, const std::string &b)
{
    size_t i = 0, j = 0; auto item = [](const std::string &s, size_t &p, std::string &k, std::string &v) { size_t e = s.find('\n', p); if (e == std::string::npos) return false; k = s.substr(p, e - p); size_t f = s.find('\n', e + 1); size_t n = strtoul(s.c_str() + e + 1, nullptr, 10); v = s.substr(f + 1, n); p = f + 1 + n; return true; };
    std::string k, v, l, w; while (item(a, i, k, v) && item(b, j, l, w)) { if (k != l) return "different files were written"; if (v != w) { size_t q = 0; while (q < v.size() && q < w.size() && v[q] == w[q]) q++; return fmt("%s differs from byte %zu on", k.c_str(), q); } }
    return "the results differ";
}
Scenario watched(Scenario s, const char *from)
{
    auto body = s.body; double full = s.cpuLimit * 2; s.cpuLimit *= 8; s.name = std::string(from) + ":" + s.name; s.prune = false; s.expect = Scenario::EITHER;
    s.body = [=] {
        fixScratchPid(); double limit = *slow >= 4 ? std::min(full, 3.0) : full;
        End a = once(body, "_m", 0xFF, limit); if (a.status == ST_MEM || a.status == ST_DIVERGED || a.status == ST_TOOLONG) _exit(0);
        End b = once(body, "_z", 0x00, limit); countCase(); if (b.status == ST_MEM) _exit(0);
        if (getenv("MC_DBG")) fprintf(stderr, "%s %s %.1f s | %s %s %.1f s\n", statusName(a.status), a.msg.substr(0, 150).c_str(), a.cpu, statusName(b.status), b.msg.substr(0, 150).c_str(), b.cpu);
        sh->status = ST_RUNNING;
        // an execution without an end is the business of the checks the scenarios come from, unless only the fill makes it so
        if (a.status == ST_HANG || b.status == ST_HANG) { __sync_fetch_and_add(slow, 1); if (a.status == b.status || std::min(a.cpu, b.cpu) > limit / 6) { sh->status = ST_EXIT; _exit(0); } }
        if (a.status != b.status) fail(ST_MEM, "the outcome depends on memory that was never set: %s (%s) when it holds ones, %s (%s) when it holds zeros", statusName(a.status), a.msg.substr(0, 300).c_str(), statusName(b.status), b.msg.substr(0, 300).c_str());
        if (a.status == ST_OK && a.blob != b.blob) fail(ST_MEM, "the results depend on memory that was never set: %s", difference(a.blob, b.blob).c_str());
        if (a.status != ST_OK && a.msg != b.msg) fail(ST_MEM, "the message depends on memory that was never set: '%s' or '%s'", a.msg.substr(0, 600).c_str(), b.msg.substr(0, 600).c_str());
        sh->status = a.status;
    };
    return s;
}
std::vector<Scenario> make()
{
    g_variant = "_m"; std::vector<Scenario> v;
    if (!slow) slow = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct From { const char *id; size_t quick, thorough; };
    for (auto &f : std::vector<From>{{"C01", 500, 3000}, {"C02", 60, 400}, {"C03", 60, 400}, {"C04", 60, 400}, {"C05", 100, 800}, {"C06", 60, 400}, {"C07", 60, 400}, {"C08", 60, 400}, {"C09", 100, 800}, {"C10", 60, 400}, {"C11", 300, 3000}, {"C12", 120, 800}, {"C13", 150, 1000}, {"C14", 100, 800}, {"C15", 100, 800},
                                   {"C16", 100, 800}, {"C17", 120, 800}, {"C18", 200, 2000}, {"C19", 100, 800}, {"C20", 60, 400}, {"C21", 60, 400}, {"C22", 60, 400}}) {
        Check *c = nullptr; for (Check *x : checks()) if (!strcmp(x->id, f.id)) c = x;
        if (!c) continue;
        std::vector<Scenario> l = c->make(); size_t n = g_thorough ? f.thorough * 3 : f.quick * 3;
        // evenly spaced, first and last included
        for (size_t i = 0; i < std::min(n, l.size()); i++) { Scenario s = l[n >= l.size() ? i : i * (l.size() - 1) / (n - 1)]; s.maxDev = 0; s.maxExec = 1; v.push_back(watched(s, f.id)); }
    }
    return v;
}
}
static Check chk{"C23", "memory safety",
    "executions of the whole program, its components and the mesh tools (scenarios of the other checks, evenly spaced over each family, including refused decks, damaged meshes and failing file operations) in builds where every access of program and tools to the heap is checked against the live objects (guarded, never reused blocks), undefined operations and overwritten stack frames are reported, message, file and solver buffers are checked when used; each run twice, with unset heap, stack and automatic variables holding ones or zeros, and the two compared", "exploration", make,
    [](const Totals &t, std::string &x) { x += fmt("\"objects_watched\": %lu, \"accesses_to_watched_objects\": %lu, \"releases_checked\": %lu, \"objects_not_watched\": %lu, ", t.user[UC_A], t.user[UC_B], t.user[UC_C], t.user[UC_D]); },
    {"objects of the C library and of libraries are not watched", "an access that jumps over the guards (64 bytes to 4 kB) into another live object is not seen", "one schedule per case"}, 500, 780, {ST_MEM, ST_CRASH}};
static Reg reg(&chk);

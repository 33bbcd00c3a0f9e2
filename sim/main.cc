#include <dlfcn.h>
#include <link.h>
// Runner: seeded batches, single runs, replay and minimisation. One forked process per simulated run.
#include "gen.h"
#include "model.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

// The simulator's own memory and OpenSSL's does not go through the sanitizer, which watches the server: every run is a process of its own.
static char *g_arena, *g_arenaEnd; static void *g_free[48];
static struct { char *a, *b; } g_chunk[512]; static int g_chunks;
void arenaRanges(void (*f)(char *, char *, void *), void *c) { for (int i = 0; i < g_chunks; i++) f(g_chunk[i].a, g_chunk[i].a == g_chunk[g_chunks - 1].a ? g_arena : g_chunk[i].b, c); }
static inline int arenaClass(size_t n, size_t &sz) { if (n <= 512) { int k = n ? (int)((n + 15) / 16) : 1; sz = (size_t)k * 16; return k - 1; } int k = 64 - __builtin_clzl(n - 1); sz = (size_t)1 << k; return 32 + k - 10; }
static void *arenaGet(size_t n) {
    size_t sz; int k = arenaClass(n + 16, sz);
    if (k >= 48) abort();
    char *p = (char *)g_free[k];
    if (p) g_free[k] = *(void **)(p + 16);
    else {
        if (!g_arena || sz > (size_t)(g_arenaEnd - g_arena)) { size_t m = std::max(sz, (size_t)4 << 20); g_arena = (char *)mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (g_arena == (char *)MAP_FAILED) abort(); g_arenaEnd = g_arena + m; if (g_chunks < 512) g_chunk[g_chunks++] = {g_arena, g_arenaEnd}; }
        p = g_arena; g_arena += sz;
    }
    *(size_t *)p = n;
    return p + 16;
}
static void arenaPut(void *q) { if (!q) return; char *p = (char *)q - 16; size_t sz; int k = arenaClass(*(size_t *)p + 16, sz); *(void **)q = g_free[k]; g_free[k] = p; }
void *operator new(size_t n) { return arenaGet(n); }
void *operator new[](size_t n) { return arenaGet(n); }
void operator delete(void *p) noexcept { arenaPut(p); }
void operator delete[](void *p) noexcept { arenaPut(p); }
void operator delete(void *p, size_t) noexcept { arenaPut(p); }
void operator delete[](void *p, size_t) noexcept { arenaPut(p); }
static void *sslMalloc(size_t n, const char *, int) { return n ? arenaGet(n) : nullptr; }
static void sslFree(void *p, const char *, int) { arenaPut(p); }
static void *sslRealloc(void *p, size_t n, const char *, int) {
    if (!p) return n ? arenaGet(n) : nullptr;
    if (!n) { arenaPut(p); return nullptr; }
    void *q = arenaGet(n); size_t o = *(size_t *)((char *)p - 16); memcpy(q, p, std::min(o, n)); arenaPut(p); return q;
}

const char *g_pemPath;
void kernelInitProcess();
extern "C" int CRYPTO_set_mem_functions(void *(*)(size_t, const char *, int), void *(*)(void *, size_t, const char *, int), void (*)(void *, const char *, int));
void seedRand(uint64_t s);
void blkReset();
Tags opTags();

extern "C" const char *__asan_default_options() { return "malloc_context_size=0:detect_leaks=0:exitcode=77:detect_odr_violation=0:handle_abort=1:allow_user_segv_handler=1:detect_stack_use_after_return=0:abort_on_error=0:symbolize=1:external_symbolizer_path=/nonexistent:allocator_may_return_null=1"; }
extern "C" const char *__ubsan_default_options() { return "exitcode=77:print_stacktrace=0:halt_on_error=1"; }

static std::vector<void *> g_so;
// coverage builds only (tools/cov.sh): program counters reached, relative to the server object
static uint64_t g_base[8]; static int g_nbase; static uint8_t *g_pcs;
extern "C" void __sanitizer_cov_trace_pc() {
    if (!g_pcs) return;
    uint64_t a = (uint64_t)__builtin_return_address(0);
    for (int i = 0; i < g_nbase; i++) if (a - g_base[i] < (4u << 20)) { g_pcs[a - g_base[i]] = 1; return; }
}
static void covInit() {
    const char *f = getenv("SIM_COV"); if (!f) return;
    int fd = open(f, O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 4 << 20)) {}
    for (void *h : g_so) { struct link_map *m = nullptr; dlinfo(h, RTLD_DI_LINKMAP, &m); g_base[g_nbase++] = m->l_addr; }
    g_pcs = (uint8_t *)mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
}
static Shared *g_sh;
static int g_errfd = -1;
static double g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct ListSource : StepSource {
    std::vector<std::string> v; size_t i = 0;
    bool next(std::string &o) override { if (i >= v.size()) return false; o = v[i++]; return true; }
};
static void onHang(int) {
    W.sh->status = ST_HANG; W.sh->tags = ALL; W.sh->hash = 0;
    snprintf(W.sh->cls, sizeof W.sh->cls, "hang-cpu");
    snprintf(W.sh->detail, sizeof W.sh->detail, "the server computes without returning to its event loop");
    _exit(0);
}

void startRefused(int code);
[[noreturn]] static void child(const RunCfg &cfg, StepSource *src, bool verbose, int checked) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onHang; sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 15; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    W.sh = g_sh; W.verbose = verbose; W.checked = checked;
    W.usNow = cfg.startUs; W.usMono = 5000000; W.sslPort = cfg.ssl; W.logLevel = cfg.logLevel; W.opt = cfg.opt;
    if (!cfg.boot.empty()) { bool stop; applyStep("startbad " + cfg.boot, stop); W.sh->steps = 0; }
    for (auto &f : cfg.files) W.disk.put(f.first, f.second);
    seedRand(cfg.seed);
    W.src = src ? src : makeGen(cfg);
    kernelReset();
    for (size_t inc = 0; inc < g_so.size(); inc++) {
        blkReset();
        int how = runServerOnce(g_so[inc]);
        if (how == 1 && W.booting) { startRefused(W.exitCode); W.incarnation++; if (W.healing) break; kernelReset(); continue; }
        W.booting = false;
        if (how == 1) modelServerExit(W.exitCode);
        else if (how == 2) {
            if (W.crashKind == 1) { Rng r(W.crashSeed); W.disk.powerLoss(r); stat(F_POWERLOSS); } else stat(F_CRASH);
            W.sh->crashes++;
            modelCrash(W.crashKind);
        } else if (how == 3) {
            W.incarnation++; kernelReset(true);
            continue;
        }
        stat(F_RESTART); W.sh->restarts++;
        W.incarnation++;
        if (W.healing) break;
        kernelReset();
    }
    endRun(ST_OK);
}
static std::string sanClass(const std::string &err, std::string &brief) {
    std::string ty = "unknown", fr;
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) { p += 25; size_t q = err.find_first_of(" \n", p); ty = err.substr(p, q - p); }
    else if ((p = err.find("runtime error: ")) != std::string::npos) { size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t q = err.find('\n', p); ty = err.substr(b, std::min((size_t)100, q - b)); }
    // first frame inside the server object
    size_t s = 0;
    while ((s = err.find("    #", s)) != std::string::npos) {
        size_t eol = err.find('\n', s); std::string l = err.substr(s, eol - s); s = eol == std::string::npos ? err.size() : eol;
        if (l.find("icbd.") == std::string::npos) continue;
        size_t in = l.find(" in "); if (in != std::string::npos) { size_t e2 = l.find(' ', in + 4); fr = l.substr(in + 4, e2 - in - 4); }
        else { size_t a = l.find("+0x"); fr = a == std::string::npos ? "?" : l.substr(a + 1, l.find(')', a) - a - 1); }
        break;
    }
    brief = err.substr(0, 1800);
    for (auto &c : brief) if (c == '\n') c = ';';
    return "memory:" + ty + ":" + fr;
}

// runs once, result in *g_sh
static void runOne(const RunCfg &cfg, StepSource *src, bool verbose, int checked) {
    memset(g_sh, 0, offsetof(Shared, trace));
    g_sh->logLen = 0;
    if (ftruncate(g_errfd, 0)) {}
    lseek(g_errfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 0); dup2(dn, 1); dup2(g_errfd, 2);
        child(cfg, src, verbose, checked);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (g_sh->status == ST_RUNNING) {
        std::string err(65536, 0); ssize_t n = pread(g_errfd, &err[0], err.size(), 0); err.resize(n > 0 ? (size_t)n : 0);
        std::string brief, cls;
        g_sh->tags = ALL; g_sh->status = ST_SAN;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) cls = sanClass(err, brief);
        else if (WIFSIGNALED(st)) { cls = "signal:" + std::to_string(WTERMSIG(st)); brief = "the server process died of signal " + std::to_string(WTERMSIG(st)) + " " + err.substr(0, 500); if (WTERMSIG(st) == SIGKILL) g_sh->status = ST_ERROR; }
        else { cls = "exit:" + std::to_string(WEXITSTATUS(st)); brief = "process ended unexpectedly: " + err.substr(0, 500); g_sh->status = ST_ERROR; }
        snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls.c_str());
        snprintf(g_sh->detail, sizeof g_sh->detail, "%s", brief.c_str());
    }
}
static bool bad(int s) { return s == ST_VIOL || s == ST_SAN || s == ST_HANG; }

static std::vector<std::string> traceLines() {
    std::vector<std::string> v; std::string t(g_sh->trace, g_sh->traceLen), l;
    for (char c : t) { if (c == '\n') { v.push_back(l); l.clear(); } else l += c; }
    return v;
}
static bool writeReplay(const std::string &path, const RunCfg &c, const std::vector<std::string> &steps, const std::string &cls, const std::string &detail, uint64_t hash) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
    fprintf(f, "icbd-sim 1\nproperty %d\nseed %llu\nstart %llu\nssl %d\nlog %d\nopt %d\nboot %s\nclass %s\nhash %016llx\n", c.prop, (unsigned long long)c.seed, (unsigned long long)c.startUs, c.ssl, c.logLevel, c.opt, c.boot.c_str(), cls.c_str(), (unsigned long long)hash);
    std::string d = detail; for (auto &ch : d) if (ch == '\n') ch = ' ';
    fprintf(f, "detail %s\n", d.c_str());
    for (auto &x : c.files) fprintf(f, "file %s %s\n", x.first.c_str(), hex(x.second).c_str());
    fprintf(f, "--\n");
    for (auto &s : steps) fprintf(f, "%s\n", s.c_str());
    fclose(f);
    return true;
}
static bool readReplay(const std::string &path, RunCfg &c, std::vector<std::string> &steps, std::string &cls, uint64_t &hash) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return false;
    std::string l; int ch; bool body = false;
    while ((ch = fgetc(f)) != EOF) {
        if (ch != '\n') { l += (char)ch; continue; }
        if (body) steps.push_back(l);
        else if (l == "--") body = true;
        else {
            size_t p = l.find(' '); std::string k = l.substr(0, p), v = p == std::string::npos ? "" : l.substr(p + 1);
            if (k == "property") c.prop = atoi(v.c_str());
            else if (k == "seed") c.seed = strtoull(v.c_str(), 0, 10);
            else if (k == "start") c.startUs = strtoull(v.c_str(), 0, 10);
            else if (k == "ssl") c.ssl = atoi(v.c_str());
            else if (k == "log") c.logLevel = atoi(v.c_str());
            else if (k == "opt") c.opt = atoi(v.c_str());
            else if (k == "boot") c.boot = v;
            else if (k == "class") cls = v;
            else if (k == "hash") hash = strtoull(v.c_str(), 0, 16);
            else if (k == "file") { size_t q = v.find(' '); c.files[v.substr(0, q)] = unhex(v.substr(q + 1)); }
        }
        l.clear();
    }
    fclose(f);
    return true;
}
static bool tryList(const RunCfg &c, const std::vector<std::string> &v, int checked, bool verbose = false) { ListSource s; s.v = v; runOne(c, &s, verbose, checked); return bad(g_sh->status); }

static std::vector<std::string> minimise(RunCfg &c, std::vector<std::string> v, int checked, const std::string &cls, double budget) {
    double end = now() + budget; int runs = 0;
    auto same = [&](const RunCfg &k, const std::vector<std::string> &x) { runs++; return tryList(k, x, checked) && cls == g_sh->cls; };
    for (auto it = c.files.begin(); it != c.files.end() && now() < end;) { RunCfg k = c; k.files.erase(it->first); if (same(k, v)) { std::string nm = it->first; ++it; c.files.erase(nm); } else ++it; }
    if (c.logLevel) { RunCfg k = c; k.logLevel = 0; if (same(k, v)) c = k; }
    if (!c.boot.empty()) { RunCfg k = c; k.boot.clear(); if (same(k, v)) c = k; }
    if (c.opt) { RunCfg k = c; k.opt = 0; if (same(k, v)) c = k; }
    // whole connections first
    for (int id = 1; id < 200 && now() < end; id++) {
        std::vector<std::string> x; std::string m = " " + std::to_string(id) + " ";
        for (auto &l : v) { size_t p = l.find(' '); bool hit = false; if (p != std::string::npos) { std::string op = l.substr(0, p), rest = l.substr(p) + " "; if (op != "adv" && op != "clock" && op != "sig" && op != "sigat" && op != "accepterr" && op != "sslnew" && op != "alloc" && op != "logopen" && op != "pollerr" && op != "disk" && op != "dbread" && op != "edit" && op != "filebad" && op != "handover" && op != "startbad" && op != "crash" && rest.compare(0, m.size(), m) == 0) hit = true; } if (!hit) x.push_back(l); }
        if (x.size() < v.size() && same(c, x)) v = x;
    }
    size_t n = std::max<size_t>(1, v.size() / 2);
    while (now() < end) {
        bool any = false;
        for (size_t i = 0; i < v.size() && now() < end;) {
            std::vector<std::string> x(v.begin(), v.begin() + (long)i);
            x.insert(x.end(), v.begin() + (long)std::min(v.size(), i + n), v.end());
            if (same(c, x)) { v = x; any = true; } else i += n;
        }
        if (n == 1 && !any) break;
        if (n > 1) n /= 2;
    }
    return v;
}

static void jstr(FILE *f, const std::string &s) { fputc('"', f); for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { personality((unsigned long)pers | ADDR_NO_RANDOMIZE); setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    setenv("TZ", "UTC", 1);
    std::map<std::string, std::string> o; std::string mode, file;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0) { size_t p = a.find('='); if (p == std::string::npos) o[a.substr(2)] = "1"; else o[a.substr(2, p - 2)] = a.substr(p + 1); }
        else if (mode.empty()) mode = a; else file = a;
    }
    auto I = [&](const char *k, long d) { return o.count(k) ? atol(o[k].c_str()) : d; };
    std::string dir = o.count("dir") ? o["dir"] : ".";
    std::string pem = o.count("pem") ? o["pem"] : dir + "/sim.pem"; g_pemPath = pem.c_str();
    g_t0 = now();
    g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_errfd = memfd_create("err", 0);
    if (CRYPTO_set_mem_functions(sslMalloc, sslRealloc, sslFree) != 1) { fprintf(stderr, "OpenSSL allocated too early\n"); return 3; }
    kernelInitProcess();
    for (int i = 0; i < 6; i++) {
        void *h = openServer((dir + "/icbd." + std::to_string(i) + ".so").c_str());
        if (!h) { fprintf(stderr, "cannot load server object %d\n", i); return 2; }
        g_so.push_back(h);
    }
    covInit();
    int prop = (int)I("prop", 0);
    bool verbose = I("verbose", 0);
    if (mode == "run") {
        RunCfg c = makeCfg(prop, strtoull(o["seed"].c_str(), 0, 10));
        runOne(c, nullptr, verbose, prop);
        fwrite(g_sh->log, 1, g_sh->logLen, stdout);
        printf("status %d class %s hash %016llx steps %llu polls %llu dispatches %llu frames %llu\n%s\n", g_sh->status, g_sh->cls, (unsigned long long)g_sh->hash, (unsigned long long)g_sh->steps, (unsigned long long)g_sh->polls, (unsigned long long)g_sh->dispatches, (unsigned long long)g_sh->frames, g_sh->detail);
        if (o.count("save")) writeReplay(o["save"], c, traceLines(), g_sh->cls, g_sh->detail, g_sh->hash);
        if (I("err", 0)) { std::string e(65536, 0); ssize_t n = pread(g_errfd, &e[0], e.size(), 0); if (n > 0) fwrite(e.data(), 1, (size_t)n, stdout); }
        return bad(g_sh->status) ? 1 : 0;
    }
    if (mode == "replay") {
        RunCfg c; std::vector<std::string> v; std::string cls; uint64_t hash = 0;
        if (!readReplay(file, c, v, cls, hash)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
        tryList(c, v, c.prop, verbose);
        fwrite(g_sh->log, 1, g_sh->logLen, stdout);
        bool same = g_sh->hash == hash && cls == g_sh->cls;
        printf("status %d class %s hash %016llx %s\n%s\n", g_sh->status, g_sh->cls, (unsigned long long)g_sh->hash, same ? "reproduced exactly" : "DIFFERS", g_sh->detail);
        if (I("err", 0)) { std::string e(65536, 0); ssize_t n = pread(g_errfd, &e[0], e.size(), 0); if (n > 0) fwrite(e.data(), 1, (size_t)n, stdout); }
        return bad(g_sh->status) ? (same || I("loose", 0) ? 1 : 3) : 0;
    }
    if (mode == "min") {
        RunCfg c; std::vector<std::string> v; std::string cls; uint64_t hash = 0;
        if (!readReplay(file, c, v, cls, hash)) return 2;
        if (!tryList(c, v, c.prop)) { printf("does not fail\n"); return 0; }
        cls = g_sh->cls;
        v = minimise(c, v, c.prop, cls, (double)I("budget", 40));
        tryList(c, v, c.prop);
        writeReplay(o.count("out") ? o["out"] : file, c, v, g_sh->cls, g_sh->detail, g_sh->hash);
        printf("%zu steps class %s\n%s\n", v.size(), g_sh->cls, g_sh->detail);
        return 1;
    }
    if (mode != "batch") { fprintf(stderr, "usage\n"); return 2; }

    double end = now() + (double)I("seconds", 10);
    uint64_t seed0 = strtoull(o.count("seed") ? o["seed"].c_str() : "1", 0, 10); long stride = I("stride", 1), off = I("offset", 0), maxRuns = I("runs", 1L << 60);
    bool keep = I("keepgoing", 0);
    std::map<std::string, long> foreign, viol; std::map<std::string, uint64_t> violSeed;
    long runs = 0, ok = 0, nforeign = 0, errors = 0, twice = 0, mism = 0, relevant = 0;
    uint64_t polls = 0, disp = 0, frames = 0, simMs = 0, sysc = 0, steps = 0, restarts = 0, oblig = 0;
    std::vector<uint64_t> stats(NSTAT); std::vector<uint64_t> cov(32);
    std::unordered_set<uint64_t> sigs, hashes;
    std::vector<std::string> samples; std::string errDetail;
    int rc = 0; std::string vcls, vdet;
    for (long i = 0; i < maxRuns && now() < end; i++) {
        uint64_t seed = seed0 * 1000003ull + (uint64_t)(off + i * stride);
        RunCfg c = makeCfg(prop, seed);
        runOne(c, nullptr, false, prop);
        runs++;
        polls += g_sh->polls; disp += g_sh->dispatches; frames += g_sh->frames; simMs += g_sh->simMs; sysc += g_sh->syscalls; steps += g_sh->steps; restarts += g_sh->restarts;
        for (int k = 0; k < NSTAT; k++) stats[(size_t)k] += g_sh->stat[k];
        for (int k = 0; k < 32; k++) cov[(size_t)k] += g_sh->covTag[k];
        uint64_t mine = prop ? g_sh->covTag[prop] : 1;
        if (prop == 1 || prop == 4 || prop == 5) mine = g_sh->dispatches;
        if (prop == 3) mine = g_sh->frames;
        if (prop == 15) mine += g_sh->stat[P_DBWRITE] + g_sh->crashes;
        oblig += mine;
        for (int k = 0; k < g_sh->nSig; k++) if (sigs.size() < 400000) sigs.insert(g_sh->stateSig[k]);
        if (mine && g_sh->status == ST_OK) { relevant++; if (hashes.size() < 400000) hashes.insert(g_sh->hash); }
        int status = g_sh->status;
        if (status == ST_OK) {
            ok++;
            if (samples.size() < 3 && mine) { auto t = traceLines(); std::string s = "seed " + std::to_string(seed) + ":"; for (size_t k = t.size() / 2; k < t.size() && s.size() < 400; k++) s += " | " + t[k].substr(0, 80); samples.push_back(s); }
            if (i % 40 == 7) { uint64_t h = g_sh->hash; runOne(c, nullptr, false, prop); twice++; if (g_sh->hash != h || g_sh->status != status) { mism++; errDetail = "seed " + std::to_string(seed) + " is not deterministic"; } }
        } else if (status == ST_FOREIGN) { nforeign++; foreign[g_sh->cls + std::string(" (seed ") + std::to_string(seed) + ") " + std::string(g_sh->detail).substr(0, 300)]++; }
        else if (status == ST_ERROR) { errors++; errDetail = "seed " + std::to_string(seed) + ": " + g_sh->cls + " " + g_sh->detail; }
        else if (bad(status)) {
            std::string cls = g_sh->cls;
            if (keep) { viol[cls]++; if (!violSeed.count(cls)) { violSeed[cls] = seed; fprintf(stderr, "seed %llu %s: %s\n", (unsigned long long)seed, cls.c_str(), g_sh->detail); } continue; }
            auto t = traceLines(); uint64_t h = g_sh->hash;
            runOne(c, nullptr, false, prop);                          // same seed again
            if (g_sh->hash != h || cls != g_sh->cls) { mism++; errDetail = "violation of seed " + std::to_string(seed) + " did not repeat"; continue; }
            std::string path = o["replay"];
            writeReplay(path + ".full", c, t, cls, g_sh->detail, h);
            if (!tryList(c, t, prop) || cls != g_sh->cls) { mism++; errDetail = "recorded trace of seed " + std::to_string(seed) + " did not repeat the violation"; continue; }
            t = minimise(c, t, prop, cls, (double)I("minbudget", 40));
            tryList(c, t, prop);
            vcls = g_sh->cls; vdet = g_sh->detail;
            writeReplay(path, c, t, vcls, vdet, g_sh->hash);
            rc = 1;
            break;
        }
    }
    FILE *f = o.count("out") ? fopen(o["out"].c_str(), "w") : stdout;
    fprintf(f, "{\"runs\":%ld,\"ok\":%ld,\"foreign\":%ld,\"errors\":%ld,\"twice\":%ld,\"mismatch\":%ld,\"relevant\":%ld,\"obligations\":%llu,\"polls\":%llu,\"dispatches\":%llu,\"frames\":%llu,\"sim_ms\":%llu,\"syscalls\":%llu,\"steps\":%llu,\"restarts\":%llu,\"wall\":%.2f,\"rc\":%d,",
            runs, ok, nforeign, errors, twice, mism, relevant, (unsigned long long)oblig, (unsigned long long)polls, (unsigned long long)disp, (unsigned long long)frames, (unsigned long long)simMs, (unsigned long long)sysc, (unsigned long long)steps, (unsigned long long)restarts, now() - g_t0, rc);
    fprintf(f, "\"error_detail\":"); jstr(f, errDetail);
    fprintf(f, ",\"cls\":"); jstr(f, vcls); fprintf(f, ",\"detail\":"); jstr(f, vdet);
    fprintf(f, ",\"foreign_detail\":{"); bool first = true;
    for (auto &p : foreign) { if (!first) fputc(',', f); first = false; jstr(f, p.first); fprintf(f, ":%ld", p.second); }
    fprintf(f, "},\"violations\":{"); first = true;
    for (auto &p : viol) { if (!first) fputc(',', f); first = false; jstr(f, p.first + " seed " + std::to_string(violSeed[p.first])); fprintf(f, ":%ld", p.second); }
    fprintf(f, "},\"stats\":{"); first = true;
    for (int k = 0; statName[k]; k++) { if (!first) fputc(',', f); first = false; fprintf(f, "\"%s\":%llu", statName[k], (unsigned long long)stats[(size_t)k]); }
    fprintf(f, "},\"cov\":{"); first = true;
    for (int k = 1; k < 27; k++) { if (!first) fputc(',', f); first = false; fprintf(f, "\"C%02d\":%llu", k, (unsigned long long)cov[(size_t)k]); }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto &s : samples) { if (!first) fputc(',', f); first = false; jstr(f, s); }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    if (o.count("sets")) { FILE *g = fopen(o["sets"].c_str(), "w"); for (auto h : hashes) fprintf(g, "h%016llx\n", (unsigned long long)h); for (auto h : sigs) fprintf(g, "s%016llx\n", (unsigned long long)h); fclose(g); }
    return rc;
}

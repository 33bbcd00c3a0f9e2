// Deterministic simulator for icbd: shared declarations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/types.h>

typedef uint64_t Tags;
static inline Tags T(int a) { return 1ull << a; }
static inline Tags T(int a, int b) { return T(a) | T(b); }
static inline Tags T(int a, int b, int c) { return T(a) | T(b) | T(c); }
static inline Tags T(int a, int b, int c, int d) { return T(a, b) | T(c, d); }
static inline Tags T(int a, int b, int c, int d, int e) { return T(a, b, c) | T(d, e); }
static const Tags ALL = ~0ull;

// build-time parameters of the simulated server (must agree with gen/config.h)
#define SIM_MAX_USERS 20
#define SIM_NICKSERV (SIM_MAX_USERS - 1)
#define SIM_ADMIN_PWD "sim_adm_pw"

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0x1234567; next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    template <class V> const typename V::value_type &pick(const V &v) { return v[below((int)v.size())]; }
};

// ---------------------------------------------------------------- expectations
struct Expect {
    std::string frame;                                   // payload without length byte and NUL
    Tags tags;
    std::string why;
    std::function<bool(const std::string &)> match;      // if set, used instead of equality
    int qpos = 0;                                        // outstanding entries when issued
    bool optional = false;
    uint64_t cbseq = 0;
};

// ---------------------------------------------------------------- connections
struct Conn {
    bool linger0 = false;
    int id = 0;
    bool tls = false;
    bool garbage = false;         // TLS port but the client does not speak TLS
    int fd = -1;                  // server side descriptor, -1 before accept / after close
    bool accepted = false, serverClosed = false;
    bool announced = false;       // new_client seen
    bool lost = false;            // lost_client seen
    bool everAnnounced = false;
    // client -> server
    std::string flight;           // written by client, not delivered
    std::string rx;               // delivered to server kernel buffer
    bool finQueued = false, finDelivered = false, finSeen = false;
    bool rst = false;             // reset delivered
    bool clientGone = false;      // client closed: data to it provokes a reset
    bool rstOnData = false;
    std::deque<std::string> sent; // complete frames sent, not yet dispatched (with length byte)
    std::string sentPartial;      // incomplete tail written by the client
    bool sentBad = false;         // an illegal frame header was sent: stream ends there
    uint64_t plainSent = 0, plainSeen = 0;   // bytes (plain) written by client / consumed by dispatch
    std::deque<uint64_t> sentEnd;            // for each frame in sent: rx byte count needed (plaintext conns)
    uint64_t delivered = 0, consumed = 0;    // raw byte counters
    // server -> client
    std::string tx;               // in the server's send buffer
    size_t cap = 24576;
    bool autoRx = true, autoDrain = true;
    std::string wirePartial;      // bytes of an incomplete outgoing frame (plaintext)
    uint64_t framesOut = 0;
    bool blocked = false;         // a write was short or would block since queue last empty
    long framesTaken = 0; int hsAge = 0, blockCount = 0, blockHere = 0; long blockTurn = -1, blockSends = 0, sendCalls = 0;
    bool everBlocked = false;
    bool writeErr = false, readErr = false, sslErr = false;
    int eagainW = 0, eagainR = 0, shortW = 0, rdErrno = 0, wrErrno = 0;
    bool acceptNoMem = false;     // memory ran out before it was announced: it may be closed
    bool oldTls = false;          // the client knows no protocol after TLS 1.1
    bool corrupt = false;         // bytes of the TLS stream to the server were altered in flight
    std::deque<Expect> expect;
    // model side
    bool kill = false;            // model expects the server to end this connection
    std::string killWhy;
    Tags killTags = 0;
    int killAge = 0;
    int finAge = 0, starve = 0, lostAge = 0;
    bool slow = false;
    uint64_t lastDispatchPoll = 0;
    int slotUse = 0;              // how many connections used this fd before
    // TLS client
    void *cssl = nullptr; void *crb = nullptr; void *cwb = nullptr;
    bool hsDone = false, hsFail = false;
    std::string plainOut;         // plaintext the server wrote (SSL_write)
    std::string plainGot;         // plaintext the client decrypted
    uint64_t rawGot = 0;
    // address
    std::string addr;             // numeric
    std::string rev;              // reverse name ("" = fails)
    std::string fwd;              // comma list of numeric addresses the name maps to ("" = fails)
    int peernameErr = 0;
    bool closedByClient = false;
    bool allocLost = false;       // a packet to it was given up for want of memory (its input waits until it can be written to)
    int mayEnd = 0;               // turns during which a hand-over may end it: a packet was half read or output was waiting
    uint64_t dispEnd = 0;         // rx byte count up to which packets were acted on (plaintext)
    bool alive() const { return accepted && !serverClosed; }
    bool closing() const { return kill || writeErr || readErr || sslErr || rst || finSeen || sentBad || lost || corrupt; }
};

// ---------------------------------------------------------------- simulated disk
struct Inode { std::string cur, dur; bool synced = false; std::vector<std::string> hist; };
struct DirOp { int kind; std::string a, b; std::shared_ptr<Inode> ino; };  // 0 create, 1 rename, 2 unlink
struct Disk {
    std::map<std::string, std::shared_ptr<Inode>> cur, dur;
    std::vector<DirOp> pend;
    bool exists(const std::string &p) { return cur.count(p) > 0; }
    std::string *content(const std::string &p) { auto i = cur.find(p); return i == cur.end() ? nullptr : &i->second->cur; }
    void put(const std::string &p, const std::string &c) {
        auto n = std::make_shared<Inode>(); n->cur = n->dur = c; n->synced = true; cur[p] = dur[p] = n;
    }
    void syncDir();
    void powerLoss(Rng &r);
};

// ---------------------------------------------------------------- shared result
enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOL = 2, ST_FOREIGN = 3, ST_ERROR = 4, ST_SAN = 5, ST_HANG = 6 };
enum { NSTAT = 128 };
struct Shared {
    int status;
    uint64_t hash;
    uint64_t stateSig[64];   // sampled model state signatures
    int nSig;
    Tags tags;
    char cls[128];
    char detail[4096];
    uint64_t steps, polls, dispatches, frames, simMs, syscalls, restarts, crashes;
    uint64_t stat[NSTAT];    // fault and probe counters
    uint64_t covTag[32];     // number of expectations checked per property
    size_t traceLen;
    char trace[1 << 20];
    size_t logLen;
    char log[1 << 20];
};

// fault / probe counters
enum StatId {
    F_SEG, F_SHORTW, F_EAGAINW, F_EAGAINR, F_RST, F_FIN, F_CLOSE, F_STALL, F_ACCEPTERR, F_DNSFAIL, F_DNSLIE,
    F_PEERNAME, F_POLLEINTR, F_DISKERR, F_DISKSHORT, F_CRASH, F_POWERLOSS, F_RESTART, F_CLOCKJUMP, F_CLOCKBACK,
    F_TLSPACK, F_TLSFRAG, F_TLSGARBAGE, F_SIGNAL, F_EMFILE, F_RSTONDATA, F_QDROP, F_FSYNCERR, F_RENAMEERR, F_OPENERR,
    F_SSLNEW, F_ENOSPC, F_STALLPROC, F_RDERR, F_WRERR, F_TLSBAD, F_SOCKOPT, F_DBREAD, F_DBSHORTREAD, F_HANDOPEN, F_HANDWRITE, F_HANDFORK, F_HANDEXEC, F_ALLOC, F_LOGOPEN, F_POLLERR, F_TLS12, F_TLSKEY, F_SIGMID, F_FILEOPEN, F_FILEREAD, F_FILEEDIT, F_START,
    P_LOGIN, P_LOGINFAIL, P_OPEN, P_PRIV, P_BEEP, P_GCHANGE, P_GREFUSE, P_MODPASS, P_MODLOST, P_MODTIMEOUT, P_MODREGAIN,
    P_IDLEBOOT, P_IDLEMOD, P_SPAMBOOT, P_BOOT, P_INVITE, P_HUSHED, P_NOTIFY, P_AWAY, P_REG, P_AUTHOK, P_AUTHBAD, P_MSGW,
    P_MSGR, P_MSGFULL, P_SHUT, P_SHUTWARN, P_ADMINDENY, P_ADMINOK, P_WHO, P_SECRETHID, P_RENAME, P_RENAMEREFUSE,
    P_SLOTREUSE, P_DBWRITE, P_MIDPKTSEND, P_QUEUED, P_FULL, P_SIZEREFUSE, P_RESTRICTREFUSE, P_SLOWHELD, P_EXCLUDE, P_BRICK,
    P_TOPIC, P_STATUS, P_DROP, P_WALL, P_TALK, P_PING, P_DENY, P_NICKSECURE, P_TLSLOGIN, P_GARBAGE, P_RESTORED, P_DELETE, P_HANDOVER, P_HANDKEPT, P_HANDCUT, P_HANDFAILED, P_STARTREFUSED, P_STARTWHOLE, P_STARTTW,
    P_END
};
extern const char *statName[];

// ---------------------------------------------------------------- the world
struct Step { std::string line; };

struct StepSource {                 // yields the next step line
    virtual bool next(std::string &out) = 0;
    virtual ~StepSource() {}
};

struct FdEnt { enum K { FREE, STD, LISTEN, LISTENSSL, CONN, FILE_, SOCK } k = FREE; int conn = -1; std::shared_ptr<Inode> ino; size_t off = 0; int flags = 0; std::string path; bool ls = false, nonblock = false, cloexec = false; int port = 0, fam = 0; std::string bound; bool reuse = false, v6only = false; };

struct World {
    Shared *sh = nullptr;
    int checked = 0;               // property under check (0: any)
    bool verbose = false;
    uint64_t usNow = 0;            // simulated microseconds since epoch
    uint64_t usMono = 0;           // monotonic
    std::vector<FdEnt> fds;
    std::map<int, std::unique_ptr<Conn>> conns;
    std::deque<int> backlogPlain, backlogTls;
    Disk disk;
    StepSource *src = nullptr;
    bool sslPort = true;
    int logLevel = 0;
    // how the server is started: command line, host and what goes wrong then
    int opt = 0;                     // see startArgs()
    int portPlain = 7326, portTls = 7327;
    std::string bindHost, hostName = "sim.host"; bool bindGiven = false;
    bool booting = false, startFired = false;
    int startKind = 0, startErr = 0, startAt = 0, startCnt = 0, startSeen = 0;
    std::set<int> timeWait;          // ports on which the last server had connections
    // faults armed
    struct DiskFault { std::string op; int err; int after; int count; };
    std::vector<DiskFault> diskFaults;
    struct Bad { int kind, err, at; };
    std::map<std::string, Bad> fileBad;                                // text files that cannot be opened (1) or have a bad spot (2)
    int dbReadArm = 0, dbReadErr = 0, dbReadAt = 0, dbReadFault = 0;   // faults of loading the database: 1 open fails, 2 read fails, 3 short reads; armed for the next start
    int acceptErr = 0, acceptErrCount = 0;
    int logOpenFail = 0, logOpenErr = 0;   // so many opens of the log file fail
    int handKind = 0, handErr = 0, handAt = 0; bool handFired = false;   // fault armed for the next hand-over
    bool restartPending = false, restartSeen = false; std::vector<std::string> execArgv;
    uint64_t lastIdleMono = 0; int idleLate = 0;
    int allocKind = 0, allocAt = 0; bool polled = false, pollFailed = false;
    long turn = 0;
    int pollEintr = 0, pollErr = 0, pollErrN = 0, sslNewFail = 0, sockoptFail = 0;
    long sigIn = -1; int sigNo = 0;           // a signal in the middle of things
    long crashIn = -1; int crashKind = 0;     // 0 process crash, 1 power loss
    uint64_t crashSeed = 1;
    // bookkeeping
    uint64_t sysSincePoll = 0, polls = 0, cbseq = 0, readyNoWork = 0, workSincePoll = 0;
    bool inServer = false, inCallback = false;
    int cbFd = -1;
    std::map<int, int> slotUses;
    int incarnation = 0;
    bool healing = false, finished = false;
    int pollsLeft = 0;
    std::map<int, void (*)(int)> sigh;
    std::set<int> closedOnce;
    int exitCode = -1; bool expectExit = false;
    int maxFd = SIM_MAX_USERS;
    bool dbFault = false;       // some disk fault fired in this incarnation
    uint64_t hash = 1469598103934665603ull;
    void mix(const void *p, size_t n) { auto *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { hash ^= b[i]; hash *= 1099511628211ull; } }
    void mixs(const std::string &s) { mix(s.data(), s.size()); mix("|", 1); }
    time_t now() const { return (time_t)(usNow / 1000000); }
    Conn *byFd(int fd) { if (fd < 0 || fd >= (int)fds.size() || fds[fd].k != FdEnt::CONN) return nullptr; return conns[fds[fd].conn].get(); }
    Conn *byId(int id) { auto i = conns.find(id); return i == conns.end() ? nullptr : i->second.get(); }
};
extern World W;

void stat(int id, uint64_t n = 1);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Report a divergence. Does not return if it ends the run.
void violation(Tags tags, const std::string &cls, const std::string &detail);
void harnessError(const std::string &msg);
[[noreturn]] void endRun(int status);
[[noreturn]] void serverGone(int how);          // 1 exit, 2 crash, 3 exec, 4 end of run
std::string esc(const std::string &s);
std::string hex(const std::string &s);
std::string unhex(const std::string &s);
bool applyStep(const std::string &line, bool &isPoll);   // kernel side of a step
void clientPump(Conn &c);
void kernelReset(bool keep = false);
void bootFiles();
void *openServer(const char *so);
int runServerOnce(void *handle);                // returns how it ended: 1 exit, 2 crash, 3 exec

// expectation plumbing
void frameLost(Conn &c, const std::string &p);
void expectFrame(int fd, const std::string &payload, Tags tags, const std::string &why);
void expectMatch(int fd, std::function<bool(const std::string &)> m, Tags tags, const std::string &why);
void onWireFrame(Conn &c, const std::string &payload);
void postCallback();

// model interface
struct Model;
void modelBoot();
void modelNewClient(int fd, int secure);
void modelDispatch(int fd, const std::string &pkt);
void modelLost(int fd);
void modelIdle();
void modelAfter();                              // after each callback
int modelOk2read(int fd);
void modelDbUp();
void modelServerExit(int code);
void modelCrash(int kind);
void modelHandOver();
void modelRestartFailed();
void modelEndOfRun();
uint64_t modelSignature();
void modelDbWritten();                          // called when the db file was replaced on disk

#include <sys/ioctl.h>
// The simulated operating system: descriptors, sockets, poll, clock, disk, resolver, TLS transport.
#include "sim.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <algorithm>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>

World W;
static sigjmp_buf g_jb;
static SSL_CTX *g_cctx;      // client TLS context
static uint64_t g_rand = 88172645463325252ull;
extern const char *g_pemPath;
void onServerClose(Conn &c); void checkDispatch(int fd, char *data); void checkNew(int fd, int secure); void checkLost(int fd); void checkOk(int fd, int r); void simPollEntry();
int connAddr(Conn &c, struct sockaddr *sa, socklen_t *l); void modelHost(const std::string &h);

const char *statName[] = {
    "tcp_segmentation", "short_write", "eagain_write", "eagain_read", "conn_reset", "half_close", "client_close", "slow_reader", "accept_error", "dns_failure", "dns_lie",
    "getpeername_failure", "poll_eintr", "disk_error", "disk_short_write", "process_crash", "power_loss", "server_restart", "clock_jump", "clock_backward",
    "tls_record_packing", "tls_record_fragmentation", "tls_garbage_handshake", "signal", "fd_exhaustion", "reset_on_data", "queue_overflow_drop", "fsync_error", "rename_error", "open_error",
    "ssl_new_failure", "disk_full", "process_stall", "read_error", "write_error", "tls_stream_altered", "setsockopt_failure", "db_read_error", "db_short_read", "handover_open_error", "handover_write_error", "fork_failure", "exec_failure", "allocation_failure", "log_open_error", "poll_error", "tls_1_2_client", "tls_key_update", "signal_in_mid_call", "text_file_open_error", "text_file_read_error", "operator_edits_file", "startup_call_failure",
    "login", "login_refused", "open_msg", "private_msg", "beep", "group_change", "group_refused", "mod_passed", "mod_lost", "mod_timeout", "mod_regained",
    "idle_boot", "idle_mod", "spam_boot", "boot", "invite", "hush_suppressed", "notify_sent", "away_reply", "registered", "auth_ok", "auth_bad", "mail_written",
    "mail_read", "mailbox_full", "shutdown_fired", "shutdown_warning", "admin_denied", "admin_ok", "who_listing", "secret_hidden", "renamed", "rename_refused",
    "slot_reused", "db_file_written", "send_mid_inbound_packet", "outgoing_queued", "server_full", "size_refused", "restricted_refused", "slow_user_held", "exclude_msg", "brick",
    "topic_set", "status_set", "dropped", "wall", "talk_list", "ping", "deny_file_hit", "secure_nick_evicted", "tls_login", "garbage_packet", "db_restored_after_crash", "nick_deleted", "hand_over", "conn_kept_over_restart", "conn_cut_by_restart", "hand_over_failed", "start_refused", "start_despite_fault", "start_on_port_just_used", 0};

Tags opTags();
void stat(int id, uint64_t n) { if (W.sh) W.sh->stat[id] += n; }

void logf(const char *fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    size_t n = strlen(buf);
    W.mix(buf, n);
    if (W.verbose && W.sh && W.sh->logLen + n + 1 < sizeof W.sh->log) {
        memcpy(W.sh->log + W.sh->logLen, buf, n); W.sh->logLen += n; W.sh->log[W.sh->logLen++] = '\n';
    }
}

std::string esc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char ch : s) {
        if (ch == 1) o += '^';
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
        else o += (char)ch;
    }
    return o;
}
std::string hex(const std::string &s) { std::string o; char b[4]; for (unsigned char ch : s) { snprintf(b, 4, "%02x", ch); o += b; } return o.empty() ? "-" : o; }
std::string unhex(const std::string &s) {
    if (s == "-") return "";
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16);
    return o;
}

void endRun(int status) {
    W.sh->hash = W.hash;
    W.sh->simMs += 0;
    W.sh->polls = W.polls;
    if (W.sh->status == ST_RUNNING) W.sh->status = status;
    _exit(0);
}
void violation(Tags tags, const std::string &cls, const std::string &detail) {
    if (W.restartSeen) tags |= T(24);
    std::string tl;
    for (int i = 1; i < 32; i++) if (tags & T(i)) { char b[8]; snprintf(b, 8, "C%02d ", i); tl += b; }
    W.sh->tags = tags;
    snprintf(W.sh->cls, sizeof W.sh->cls, "%s", cls.c_str());
    snprintf(W.sh->detail, sizeof W.sh->detail, "%s [tags %s] t=%llu poll=%llu", detail.c_str(), tags == ALL ? "all" : tl.c_str(),
             (unsigned long long)(W.usNow / 1000), (unsigned long long)W.polls);
    logf("VIOLATION %s: %s", cls.c_str(), W.sh->detail);
    bool mine = W.checked == 0 || (tags & T(W.checked));
    endRun(mine ? ST_VIOL : ST_FOREIGN);
}
void harnessError(const std::string &m) {
    snprintf(W.sh->detail, sizeof W.sh->detail, "%s", m.c_str());
    snprintf(W.sh->cls, sizeof W.sh->cls, "harness");
    endRun(ST_ERROR);
}
void serverGone(int how) { W.inServer = false; siglongjmp(g_jb, how); }

// a signal that arrives in the middle of things: its handler runs before or after the n-th system call from here
static void sigPoint() {
    if (W.sigIn < 0 || W.sigIn-- != 0) return;
    auto it = W.sigh.find(W.sigNo); W.sigIn = -1;
    if (!W.polled || it == W.sigh.end() || !it->second || it->second == SIG_IGN || it->second == SIG_DFL) return;
    logf("  signal %d", W.sigNo); stat(F_SIGMID);
    if (W.sigNo == 15 || W.sigNo == 2) W.expectExit = true;
    it->second(W.sigNo);
}
// a fault of the k-th call of one kind while the server is starting
enum { ST_SOCKET = 1, ST_BIND, ST_LISTEN, ST_SOCKOPT, ST_FCNTL, ST_GAI, ST_PEM, ST_LOG, ST_FORK, ST_PIDOPEN, ST_PIDWRITE, ST_HOSTNAME, ST_RLIMIT, ST_NKINDS };
static bool startFault(int kind) {
    if (!W.booting || W.startKind != kind) return false;
    int k = W.startSeen++;
    if (k < W.startAt || k >= W.startAt + W.startCnt) return false;
    W.startFired = true; stat(F_START); logf("  start fault %d", kind); errno = W.startErr;
    return true;
}
struct SigScope { SigScope() { sigPoint(); } ~SigScope() { sigPoint(); } };
static void sysEnter(const char *name) {
    (void)name;
    W.sh->syscalls++;
    if (++W.sysSincePoll > 400000) violation(T(4, 5) | opTags(), "hang", std::string("server made 400000 system calls without returning to its event loop; last ") + name);
    if (W.crashIn >= 0 && W.crashIn-- == 0) { logf("crash at %s", name); W.crashIn = -1; serverGone(2); }
}

// ---------------------------------------------------------------- disk
void Disk::syncDir() { dur = cur; pend.clear(); }
void Disk::powerLoss(Rng &r) {
    // a random prefix of the pending directory operations reached the journal
    int k = r.below((int)pend.size() + 1);
    for (int i = 0; i < k; i++) {
        DirOp &o = pend[i];
        if (o.kind == 0) dur[o.a] = o.ino;
        else if (o.kind == 1) { auto it = dur.find(o.a); if (it != dur.end()) { dur[o.b] = it->second; dur.erase(o.a); } else dur[o.b] = o.ino; }
        else dur.erase(o.a);
    }
    pend.clear();
    cur = dur;
    std::set<Inode *> seen;
    for (auto &e : cur) {
        Inode *n = e.second.get();
        if (seen.count(n)) continue;
        seen.insert(n);
        if (n->cur != n->dur) {   // unsynced data: any prefix of it may be on disk, or zeroes
            std::string s = n->cur;
            size_t keep = r.below((int)s.size() + 1);
            if (r.chance(1, 3)) { for (size_t i = keep; i < s.size(); i++) s[i] = 0; }
            else s.resize(keep);
            n->cur = s;
        }
        n->dur = n->cur; n->synced = true;
    }
}

static int diskFault(const char *op) {
    for (auto &f : W.diskFaults) {
        if (f.op != op || f.count <= 0) continue;
        if (f.after > 0) { f.after--; continue; }
        f.count--;
        W.dbFault = true;
        stat(f.err == -1 ? F_DISKSHORT : F_DISKERR);
        if (f.op == "fsync") stat(F_FSYNCERR);
        if (f.op == "rename") stat(F_RENAMEERR);
        if (f.op == "open") stat(F_OPENERR);
        if (f.err == ENOSPC) stat(F_ENOSPC);
        logf("disk fault %s err %d", op, f.err);
        return f.err;
    }
    return 0;
}
static std::string normPath(const char *p) { std::string s = p ? p : ""; while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
static bool isDb(const std::string &p) { return p.find("icbdb") != std::string::npos; }

// faults of a hand-over to a new program image
static bool handFault(int kind) {
    if (!W.restartPending || W.handKind != kind || W.handFired) return false;
    W.handFired = true;
    stat(kind == 1 ? F_HANDOPEN : kind == 2 || kind == 5 ? F_HANDWRITE : kind == 3 ? F_HANDFORK : F_HANDEXEC);
    logf("hand-over fault %d", kind);
    modelRestartFailed();
    return true;
}
static bool isDump(const std::string &p) { return !isDb(p) && p.find(".log") == std::string::npos && p.find(".pid") == std::string::npos; }

// Sockets take the lowest descriptors below the process limit; plain files live in a range of their own so that a full
// house of connections is not also a file-open failure (those are injected separately).
enum { FILE_FD0 = 64, FILE_FD1 = 88 };
static int allocFd(bool file = false) {
    for (int i = file ? FILE_FD0 : 3; i < (file ? (int)FILE_FD1 : W.maxFd); i++) if (W.fds[i].k == FdEnt::FREE) return i;
    return -1;
}
static FdEnt *ent(int fd) { if (fd < 0 || fd >= (int)W.fds.size() || W.fds[fd].k == FdEnt::FREE) { errno = EBADF; return nullptr; } return &W.fds[fd]; }

static int simOpen(const char *path, int flags) {
    std::string p = normPath(path);
    sysEnter("open");
    if (int e = isDb(p) && (flags & O_CREAT) ? diskFault("open") : 0) { errno = e; return -1; }
    if (W.logOpenFail > 0 && p.find(".log") != std::string::npos && (flags & O_CREAT)) { W.logOpenFail--; stat(F_LOGOPEN); errno = W.logOpenErr; return -1; }
    if (p.find(".log") != std::string::npos && (flags & O_CREAT) && startFault(ST_LOG)) return -1;
    if (p == "icbd.pid" && startFault(ST_PIDOPEN)) return -1;
    if (W.restartPending && (flags & O_CREAT) && isDump(p) && handFault(1)) { errno = W.handErr; return -1; }
    if (p == "icbdb.db" && W.dbReadFault == 1 && W.disk.cur.count(p) && (flags & O_ACCMODE) != O_WRONLY) { stat(F_DBREAD); errno = W.dbReadErr; return -1; }
    if (auto b = W.fileBad.find(p); b != W.fileBad.end() && b->second.kind == 1 && (flags & O_ACCMODE) == O_RDONLY) { stat(F_FILEOPEN); errno = b->second.err; return -1; }
    int fd = allocFd(true);
    if (fd < 0) { stat(F_EMFILE); errno = EMFILE; return -1; }
    auto it = W.disk.cur.find(p);
    std::shared_ptr<Inode> ino;
    if (it == W.disk.cur.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        ino = std::make_shared<Inode>();
        W.disk.cur[p] = ino;
        W.disk.pend.push_back({0, p, "", ino});
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        ino = it->second;
        if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) ino->cur.clear();
    }
    FdEnt &e = W.fds[fd];
    e = FdEnt(); e.k = FdEnt::FILE_; e.ino = ino; e.flags = flags; e.path = p; e.off = 0; e.cloexec = flags & O_CLOEXEC;
    if (isDb(p)) logf("open %s %x -> %d", p.c_str(), flags & 0xfff, fd);
    if (p == "." || p == "") {}
    return fd;
}
static ssize_t fileRead(FdEnt &e, void *buf, size_t n) {
    sysEnter("read");
    if ((e.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (int er = isDb(e.path) ? diskFault("read") : 0) { errno = er; return -1; }
    std::string &c = e.ino->cur;
    size_t end = c.size();
    auto bad = W.fileBad.find(e.path);
    if (bad != W.fileBad.end() && bad->second.kind == 2 && (size_t)bad->second.at < end) {   // the medium has a bad spot: everything before it can be read
        end = (size_t)bad->second.at;
        if (e.off >= end) { stat(F_FILEREAD); errno = bad->second.err; return -1; }
    }
    if (e.off >= end) return 0;
    size_t k = std::min(n, end - e.off);
    if (e.path == "icbdb.db" && W.dbReadFault == 2 && e.off + k > (size_t)W.dbReadAt % c.size()) { stat(F_DBREAD); errno = W.dbReadErr; return -1; }
    if (isDb(e.path) && W.dbReadFault == 3 && k > 1) { k = 1 + (e.off * 7 + (size_t)W.dbReadAt) % k; stat(F_DBSHORTREAD); }
    memcpy(buf, c.data() + e.off, k); e.off += k;
    return (ssize_t)k;
}
static ssize_t fileWrite(FdEnt &e, const void *buf, size_t n) {
    if (e.path == "icbd.pid" && startFault(ST_PIDWRITE)) return -1;
    sysEnter("write");
    std::string tmp((const char *)buf, n);
    if ((e.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (e.path.find(".log") != std::string::npos) { return (ssize_t)n; }
    if (isDb(e.path)) {
        int er = diskFault("write");
        if (er == -1) { if (n > 1) n = n / 2; }
        else if (er) { errno = er; return -1; }
    }
    if (W.restartPending && isDump(e.path) && (W.handKind == 2 || W.handKind == 5) && ((W.handFired && W.handKind == 2) || (e.off + n > (size_t)W.handAt && handFault(W.handKind)))) { errno = W.handErr; return -1; }
    std::string &c = e.ino->cur;
    if (e.flags & O_APPEND) e.off = c.size();
    if (e.off > c.size()) c.resize(e.off);
    c.replace(e.off, std::min(n, c.size() - e.off), (const char *)buf, n);
    e.off += n;
    return (ssize_t)n;
}

// ---------------------------------------------------------------- network
static void fdWork(int fd) { (void)fd; W.workSincePoll++; }

static void feedPlain(Conn &c, const char *p, size_t n) {
    c.wirePartial.append(p, n);
    while (!c.wirePartial.empty()) {
        size_t L = (unsigned char)c.wirePartial[0];
        if (c.wirePartial.size() < L + 1) break;
        std::string pay = c.wirePartial.substr(1, L);
        c.wirePartial.erase(0, L + 1);
        c.framesOut++; W.sh->frames++;
        if (L == 0) violation(T(3), "bad-frame", "server sent a packet of length zero");
        if (pay.back() != '\0') violation(T(3), "bad-frame", "server sent a packet not terminated by NUL: " + esc(pay));
        pay.pop_back();
        if (pay.find('\0') != std::string::npos) violation(T(3), "bad-frame", "server sent a packet with an embedded NUL: " + esc(pay));
        onWireFrame(c, pay);
    }
}

static bool g_dontwait = false;
static void wouldBlock(int fd, const char *what) {
    if (g_dontwait || fd < 0 || W.fds[fd].nonblock) return;
    violation(T(5, 4) | T(2), "blocking-call", std::string("server blocks in ") + what + " on descriptor " + std::to_string(fd) + ": nobody is served until that one client moves");
}
static ssize_t rawRecv(Conn &c, void *buf, size_t n) {
    fdWork(c.fd);
    if (c.rst) { c.readErr = true; errno = ECONNRESET; return -1; }
    if (c.rdErrno) { stat(F_RDERR); c.readErr = c.rst = c.closedByClient = c.clientGone = true; c.flight.clear(); c.tx.clear(); errno = c.rdErrno; return -1; }
    if (c.eagainR > 0) { c.eagainR--; stat(F_EAGAINR); wouldBlock(c.fd, "read"); errno = EAGAIN; return -1; }
    if (!c.rx.empty()) {
        if (n == 0) return 0;
        size_t k = std::min(n, c.rx.size());
        memcpy(buf, c.rx.data(), k);
        c.rx.erase(0, k);
        c.consumed += k;
        c.starve = 0;
        return (ssize_t)k;
    }
    if (c.finDelivered) { c.finSeen = true; return 0; }
    wouldBlock(c.fd, "read");
    errno = EAGAIN;
    return -1;
}
// the server may give a client up when more than ten attempts to write one packet were blocked. Attempts it makes without
// reason (again and again in the same turn, with no new packet to send) do not count.
static void countBlock(Conn &c) {
    if (c.blockTurn != W.turn || c.blockSends != c.sendCalls) { c.blockTurn = W.turn; c.blockSends = c.sendCalls; c.blockHere = 0; }
    if (++c.blockHere <= 2) c.blockCount++;
}
static bool g_nosignal = false;
static ssize_t rawSend(Conn &c, const void *buf, size_t n) {
    fdWork(c.fd);
    if (c.rst) {
        if (!g_nosignal && (!W.sigh.count(SIGPIPE) || !W.sigh[SIGPIPE])) violation(T(4, 5, 26), "signal-death", "writing to a connection that is gone kills the server (SIGPIPE)");
        c.writeErr = true; errno = EPIPE; return -1;
    }
    if (c.wrErrno) { stat(F_WRERR); c.writeErr = c.rst = c.closedByClient = c.clientGone = true; c.flight.clear(); c.tx.clear(); errno = c.wrErrno; return -1; }
    if (c.eagainW > 0) { c.eagainW--; stat(F_EAGAINW); c.blocked = c.everBlocked = true; countBlock(c); wouldBlock(c.fd, "write"); errno = EAGAIN; return -1; }
    size_t freeb = c.cap > c.tx.size() ? c.cap - c.tx.size() : 0;
    if (freeb == 0) { stat(F_EAGAINW); c.blocked = c.everBlocked = true; countBlock(c); wouldBlock(c.fd, "write"); errno = EAGAIN; return -1; }
    size_t k = std::min(n, freeb);
    if (c.shortW > 0 && k > 1) { c.shortW--; k = 1 + (k - 1) / 2; }
    if (k < n) { stat(F_SHORTW); c.blocked = c.everBlocked = true; countBlock(c); wouldBlock(c.fd, "write"); }
    std::string s((const char *)buf, k);
    if (c.clientGone) { c.rstOnData = true; return (ssize_t)k; }
    c.tx += s;
    if (!c.rx.empty() || !c.sentPartial.empty()) stat(P_MIDPKTSEND);
    return (ssize_t)k;
}

// The clients share the thread with the server, but not its OpenSSL error queue: what the server left in its queue is put
// aside while a client runs and put back afterwards, so that an error of one connection can still be mistaken for one of another.
struct ErrQueue {
    struct E { unsigned long code; std::string file, func; int line; };
    std::vector<E> kept;
    ErrQueue() {
        const char *f, *fn; int l; unsigned long e;
        while (ERR_peek_error() && (e = ERR_get_error_all(&f, &l, &fn, nullptr, nullptr))) kept.push_back({e, f ? f : "", fn ? fn : "", l});
    }
    ~ErrQueue() {
        ERR_clear_error();
        for (auto &k : kept) { ERR_new(); ERR_set_debug(k.file.c_str(), k.line, k.func.c_str()); ERR_set_error(ERR_GET_LIB(k.code), ERR_GET_REASON(k.code), nullptr); }
    }
};
// was the result r <= 0 a real error of this connection, whatever an earlier call left in the queue?
static bool sslGenuine(SSL *s, int r, unsigned long before) {
    int e = SSL_get_error(s, r);
    if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) return false;
    if (before && before == ERR_peek_last_error()) {
        BIO *rb = SSL_get_rbio(s), *wb = SSL_get_wbio(s);
        if (SSL_want(s) == SSL_READING && rb && BIO_should_retry(rb) && BIO_should_read(rb)) return false;
        if (SSL_want(s) == SSL_WRITING && wb && BIO_should_retry(wb) && BIO_should_write(wb)) return false;
    }
    return true;
}

// real TLS client end
void clientPump(Conn &c) {
    if (!c.tls || c.garbage || !c.cssl) {
        return;
    }
    ErrQueue eq;
    SSL *s = (SSL *)c.cssl;
    for (;;) {
        if (!c.hsDone && !c.hsFail) {
            int r = SSL_do_handshake(s);
            if (r == 1) { c.hsDone = true; if (c.oldTls) violation(T(2), "tls-old", "the server completed a handshake for a protocol older than TLS 1.2"); }
            else { int e = SSL_get_error(s, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { c.hsFail = true; } ERR_clear_error(); }
        }
        if (c.hsDone) {
            char b[4096]; int r;
            while ((r = SSL_read(s, b, sizeof b)) > 0) {
                c.plainGot.append(b, r);
            }
            int e = SSL_get_error(s, r);
            if (e == SSL_ERROR_SSL) {
                if (!c.closing() && !c.serverClosed) violation(T(2, 3), "tls-corrupt", "TLS client cannot decrypt what the server sent");
                c.hsFail = true;
            }
            ERR_clear_error();
            if (c.plainGot.size() > c.plainOut.size() || c.plainOut.compare(0, c.plainGot.size(), c.plainGot) != 0)
                violation(T(2, 3), "tls-stream", "decrypted stream differs from what the server wrote");
        }
        break;
    }
    char b[4096]; int n;
    while ((n = BIO_read((BIO *)c.cwb, b, sizeof b)) > 0) c.flight.append(b, n);
}
static void clientDrain(Conn &c, size_t n) {
    n = std::min(n, c.tx.size());
    if (n == 0) { return; }
    std::string got = c.tx.substr(0, n);
    c.tx.erase(0, n);
    c.rawGot += n;
    if (c.tls && !c.garbage && c.cssl) { BIO_write((BIO *)c.crb, got.data(), (int)got.size()); clientPump(c); }
}
static void deliver(Conn &c, size_t n) {
    if (c.rst || c.serverClosed) { c.flight.clear(); return; }
    n = std::min(n, c.flight.size());
    c.rx.append(c.flight, 0, n);
    c.flight.erase(0, n);
    c.delivered += n;
    if (c.finQueued && c.flight.empty()) { c.finDelivered = true; }
}

// client writes plaintext p; track frames
static void clientWrite(Conn &c, const std::string &p) {
    if (c.finQueued || c.closedByClient || c.rst) return;
    if (c.tls && !c.garbage) {
        clientPump(c);
        if (!c.hsDone) return;     // generator waits for the handshake; dropped otherwise
        if (p.empty()) return;
        { ErrQueue eq; int r = SSL_write((SSL *)c.cssl, p.data(), (int)p.size()); if (r <= 0) return; }
        clientPump(c);
    } else {
        c.flight += p;
    }
    c.sentPartial += p;
    c.plainSent += p.size();
    while (!c.sentPartial.empty() && !c.sentBad) {
        size_t L = (unsigned char)c.sentPartial[0];
        if (L == 0 || L == 255) { c.sentBad = true; break; }
        if (c.sentPartial.size() < L + 1) break;
        c.sent.push_back(c.sentPartial.substr(0, L + 1));
        c.sentPartial.erase(0, L + 1);
        c.sentEnd.push_back(c.plainSent - c.sentPartial.size());
    }
}

// ---------------------------------------------------------------- steps
static std::vector<std::string> words(const std::string &l) {
    std::vector<std::string> w; std::string cur;
    for (char ch : l) { if (ch == ' ') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; }
    if (!cur.empty()) w.push_back(cur);
    return w;
}

bool applyStep(const std::string &line, bool &isPoll) {
    isPoll = false;
    auto w = words(line);
    if (w.empty() || w[0][0] == '#') return true;
    const std::string &op = w[0];
    W.sh->steps++;
    W.mixs(line);
    if (W.verbose) logf("step %s", line.size() > 300 ? (line.substr(0, 300) + "...").c_str() : line.c_str());
    auto I = [&](size_t i) { return i < w.size() ? atol(w[i].c_str()) : 0L; };
    if (op == "poll") { isPoll = true; return true; }
    if (op == "conn") {   // conn id tls addr rev fwd cap peererr
        int id = (int)I(1);
        if (W.conns.count(id)) return true;
        auto c = std::make_unique<Conn>();
        c->id = id; c->tls = I(2) != 0; c->garbage = I(2) == 2;   // 1: TLS 1.3, 2: no TLS at all, 3: TLS 1.2, 4: a point that is not on the curve, 5: TLS 1.1 at most
        if (c->tls && !W.sslPort) { return true; }
        c->addr = w.size() > 3 ? w[3] : "10.0.0.1";
        c->rev = w.size() > 4 && w[4] != "-" ? w[4] : "";
        c->fwd = w.size() > 5 && w[5] != "-" ? w[5] : "";
        c->cap = w.size() > 6 ? (size_t)I(6) : 24576;
        c->peernameErr = (int)I(7);
        if (c->tls && !c->garbage) {
            SSL *s = SSL_new(g_cctx);
            BIO *rb = BIO_new(BIO_s_mem()), *wb = BIO_new(BIO_s_mem());
            SSL_set_bio(s, rb, wb); SSL_set_connect_state(s);
            if (I(2) == 3) { SSL_set_max_proto_version(s, TLS1_2_VERSION); stat(F_TLS12); }
            if (I(2) == 4) { SSL_set1_groups_list(s, "P-256"); c->corrupt = true; stat(F_TLSBAD); }
            if (I(2) == 5) { SSL_set_security_level(s, 0); SSL_set_min_proto_version(s, TLS1_VERSION); SSL_set_max_proto_version(s, TLS1_1_VERSION); c->corrupt = c->oldTls = true; stat(F_TLSBAD); }
            c->cssl = s; c->crb = rb; c->cwb = wb;
        }
        bool badPoint = I(2) == 4;
        Conn &cr = *c;
        W.conns[id] = std::move(c);
        (cr.tls ? W.backlogTls : W.backlogPlain).push_back(id);
        clientPump(cr);
        if (badPoint) { size_t at = cr.flight.find(std::string("\x00\x17\x00\x41\x04", 5)); if (at != std::string::npos && at + 60 < cr.flight.size()) cr.flight[at + 60] ^= 1; }
        return true;
    }
    if (op == "adv") { uint64_t ms = (uint64_t)I(1); W.usNow += ms * 1000; W.usMono += ms * 1000; W.sh->simMs += ms; if (ms > 5000) stat(F_STALLPROC); return true; }
    if (op == "clock") { long s = I(1); W.usNow = (uint64_t)((int64_t)W.usNow + (int64_t)s * 1000000); stat(s < 0 ? F_CLOCKBACK : F_CLOCKJUMP); return true; }
    if (op == "eintr") { W.pollEintr++; return true; }
    if (op == "pollerr") { W.pollErr = (int)I(1); W.pollErrN = (int)I(2); return true; }
    if (op == "sig") {
        int n = (int)I(1); stat(F_SIGNAL);
        auto it = W.sigh.find(n);
        if (it == W.sigh.end() || !it->second) violation(T(4, 26), "signal-death", "signal " + std::to_string(n) + " kills the server: nothing is prepared for it");
        if (it != W.sigh.end() && it->second && it->second != SIG_IGN) { if (n == 15 || n == 2) W.expectExit = true; it->second(n); W.pollEintr++; }
        return true;
    }
    if (op == "sigat") { W.sigNo = (int)I(1); W.sigIn = I(2); return true; }
    if (op == "accepterr") { W.acceptErr = (int)I(1); W.acceptErrCount = (int)I(2); return true; }
    if (op == "sockopt") { W.sockoptFail = (int)I(1); return true; }
    if (op == "alloc") { W.allocKind = (int)I(1); W.allocAt = (int)I(2); return true; }   // 1: while sending, 2: while receiving
    if (op == "sslnew") { W.sslNewFail = (int)I(1); return true; }
    if (op == "disk") { W.diskFaults.push_back({w.size() > 1 ? w[1] : "", (int)I(2), (int)I(3), (int)I(4)}); return true; }
    if (op == "logopen") { W.logOpenErr = (int)I(1); W.logOpenFail = (int)I(2); return true; }
    if (op == "edit") {   // the operator changes or removes one of the text files
        stat(F_FILEEDIT); std::string f = w.size() > 1 ? w[1] : "";
        if (w.size() > 2 && w[2] == "!") { W.disk.cur.erase(f); W.disk.dur.erase(f); } else W.disk.put(f, unhex(w.size() > 2 ? w[2] : "-"));
        return true;
    }
    if (op == "filebad") { if (I(2) == 0) W.fileBad.erase(w[1]); else W.fileBad[w[1]] = {(int)I(2), (int)I(3), (int)I(4)}; return true; }
    if (op == "dbread") { if (I(1) == 0) modelDbUp(); else { W.dbReadArm = (int)I(1); W.dbReadErr = (int)I(2); W.dbReadAt = (int)I(3); } return true; }
    if (op == "startbad") { W.startKind = (int)I(1); W.startErr = (int)I(2); W.startAt = (int)I(3); W.startCnt = (int)I(4); return true; }
    if (op == "handover") { W.handKind = (int)I(1); W.handErr = (int)I(2); W.handAt = (int)I(3); return true; }
    if (op == "crash") { W.crashIn = I(1); W.crashKind = (int)I(2); W.crashSeed = (uint64_t)I(3); return true; }
    Conn *cp = W.byId((int)I(1));
    if (!cp) return true;
    Conn &c = *cp;
    if (op == "send" && !c.garbage) { clientWrite(c, unhex(w.size() > 2 ? w[2] : "-")); return true; }
    if (op == "send" || op == "raw") { if (!c.finQueued && !c.rst) c.flight += unhex(w.size() > 2 ? w[2] : "-"); return true; }   // bytes outside the frame accounting (TLS garbage)
    if (op == "dlv") { long n = I(2); if (n >= 0 && (size_t)n < c.flight.size()) stat(F_SEG); deliver(c, n < 0 ? c.flight.size() : (size_t)n); return true; }
    if (op == "drain") { long n = I(2); clientDrain(c, n < 0 ? c.tx.size() : (size_t)n); return true; }
    if (op == "peererr") { c.peernameErr = (int)I(2); return true; }
    if (op == "autorx") { c.autoRx = I(2); return true; }
    if (op == "autodrain") { if (!I(2)) stat(F_STALL); c.autoDrain = I(2); return true; }
    if (op == "cap") { c.cap = (size_t)I(2); return true; }
    if (op == "shortw") { c.shortW = (int)I(2); return true; }
    if (op == "eagainw") { c.eagainW = (int)I(2); return true; }
    if (op == "eagainr") { c.eagainR = (int)I(2); return true; }
    if (op == "rderr") { c.rdErrno = (int)I(2); return true; }
    if (op == "wrerr") { c.wrErrno = (int)I(2); return true; }
    if (op == "tlskey") {   // the client changes its keys and asks the server to change its own
        if (!c.tls || c.garbage || c.corrupt || !c.hsDone || c.hsFail || c.finQueued || c.closedByClient || c.rst || SSL_version((SSL *)c.cssl) != TLS1_3_VERSION) return true;
        { ErrQueue eq; SSL_key_update((SSL *)c.cssl, I(2) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake((SSL *)c.cssl); }
        stat(F_TLSKEY);
        clientPump(c);
        return true;
    }
    if (op == "tlsreneg") { // a TLS 1.2 client asks for a new handshake, which the server may refuse
        if (!c.tls || c.garbage || !c.hsDone || c.hsFail || c.finQueued || c.closedByClient || c.rst || SSL_version((SSL *)c.cssl) != TLS1_2_VERSION) return true;
        c.corrupt = true; stat(F_TLSBAD);
        { ErrQueue eq; SSL_renegotiate((SSL *)c.cssl); SSL_do_handshake((SSL *)c.cssl); }
        clientPump(c);
        return true;
    }
    if (op == "tlsbad") {   // the network alters or adds bytes in a TLS stream
        if (!c.tls || c.garbage || c.finQueued || c.rst || c.serverClosed) return true;
        c.corrupt = true; stat(F_TLSBAD);
        if (!c.flight.empty()) c.flight[(size_t)I(2) % c.flight.size()] ^= (char)(1 + I(2) % 255); else c.flight += unhex("170303001d") + std::string(29, (char)I(2));
        return true;
    }
    if (op == "fin") {   // half close: client stops sending but keeps reading
        if (!c.finQueued && !c.rst) { stat(F_FIN); c.finQueued = true; if (c.tls && c.cssl && I(2)) { { ErrQueue eq; SSL_shutdown((SSL *)c.cssl); } clientPump(c); } if (c.flight.empty()) c.finDelivered = true; }
        return true;
    }
    if (op == "close") { // full close
        if (!c.finQueued && !c.rst) { stat(F_CLOSE); c.finQueued = true; c.closedByClient = c.clientGone = true; deliver(c, c.flight.size()); c.finDelivered = true; c.tx.clear(); }
        return true;
    }
    if (op == "rst") {
        if (!c.rst) { stat(F_RST); c.rst = true; c.closedByClient = c.clientGone = true; c.flight.clear(); c.tx.clear(); }
        return true;
    }
    harnessError("unknown step: " + line);
    return false;
}

// ---------------------------------------------------------------- wrapped calls
extern "C" {
#define ENTER(n) SigScope sigScope_; sysEnter(n)

int __wrap_open(const char *p, int flags, ...) { SigScope sigScope_; return simOpen(p, flags); }
int __wrap_open64(const char *p, int flags, ...) { SigScope sigScope_; return simOpen(p, flags); }
int __wrap_openat(int, const char *p, int flags, ...) { return simOpen(p, flags); }
int __wrap_creat(const char *p, mode_t) { return simOpen(p, O_WRONLY | O_CREAT | O_TRUNC); }

int __wrap_close(int fd) {
    ENTER("close");
    FdEnt *e = ent(fd);
    if (!e) {
        if (fd >= 3) violation(T(5), "double-close", "server closed descriptor " + std::to_string(fd) + " which is not open");
        return -1;
    }
    if (e->k == FdEnt::STD) return 0;
    if (!W.booting && (e->k == FdEnt::LISTEN || e->k == FdEnt::LISTENSSL)) violation(T(5), "listener-closed", "server closed its listening socket");
    if (e->k == FdEnt::CONN) {
        Conn &c = *W.conns[e->conn];
        fdWork(fd);
        logf("close conn %d fd %d", c.id, fd);
        onServerClose(c);
        c.serverClosed = true; c.fd = -1;
        c.rx.clear(); c.tx.clear(); c.flight.clear(); c.expect.clear();
        W.slotUses[fd]++;
    }
    if (e->k == FdEnt::FILE_ && isDb(e->path) && (e->flags & O_ACCMODE) != O_RDONLY) {
        if (int er = diskFault("close")) { *e = FdEnt(); errno = er; return -1; }
    }
    *e = FdEnt();
    return 0;
}
ssize_t __wrap_read(int fd, void *buf, size_t n) {
    SigScope sigScope_;
    FdEnt *e = ent(fd);
    if (!e) return -1;
    if (e->k == FdEnt::FILE_) return fileRead(*e, buf, n);
    sysEnter("read");
    if (e->k == FdEnt::CONN) return rawRecv(*W.conns[e->conn], buf, n);
    errno = EINVAL; return -1;
}
ssize_t __wrap_recv(int fd, void *buf, size_t n, int flags) {
    if (flags & MSG_PEEK) { Conn *c = W.byFd(fd); ENTER("recv"); if (c && !c->rst && !c->rx.empty()) { size_t k = std::min(n, c->rx.size()); memcpy(buf, c->rx.data(), k); return (ssize_t)k; } if (c && !c->rst && c->finDelivered) return 0; errno = c && c->rst ? ECONNRESET : EAGAIN; return -1; }
    g_dontwait = flags & MSG_DONTWAIT; ssize_t r = __wrap_read(fd, buf, n); g_dontwait = false; return r;
}
ssize_t __wrap_recvfrom(int fd, void *buf, size_t n, int flags, void *, void *) { return __wrap_recv(fd, buf, n, flags); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int cnt) {
    ssize_t tot = 0;
    for (int i = 0; i < cnt; i++) {
        if (v[i].iov_len == 0) continue;
        ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    SigScope sigScope_;
    FdEnt *e = ent(fd);
    if (!e) return -1;
    if (e->k == FdEnt::FILE_) return fileWrite(*e, buf, n);
    sysEnter("write");
    if (e->k == FdEnt::STD) return (ssize_t)n;
    if (e->k == FdEnt::CONN) {
        Conn &c = *W.conns[e->conn];
        if (c.tls) violation(T(2, 12, 24), "tls-plaintext", "the server wrote to a TLS connection without encrypting");
        ssize_t r = rawSend(c, buf, n);
        if (r > 0) feedPlain(c, (const char *)buf, (size_t)r);
        return r;
    }
    errno = EINVAL; return -1;
}
ssize_t __wrap_send(int fd, const void *buf, size_t n, int fl) { g_dontwait = fl & MSG_DONTWAIT; g_nosignal = fl & MSG_NOSIGNAL; ssize_t r = __wrap_write(fd, buf, n); g_dontwait = g_nosignal = false; return r; }
ssize_t __wrap_sendto(int fd, const void *buf, size_t n, int fl, const void *, socklen_t) { return __wrap_send(fd, buf, n, fl); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int cnt) {
    std::string s; for (int i = 0; i < cnt; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
    return __wrap_write(fd, s.data(), s.size());
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) { g_dontwait = fl & MSG_DONTWAIT; g_nosignal = fl & MSG_NOSIGNAL; ssize_t r = __wrap_writev(fd, m->msg_iov, (int)m->msg_iovlen); g_dontwait = g_nosignal = false; return r; }
ssize_t __wrap_pwrite(int fd, const void *buf, size_t n, off_t o) { FdEnt *e = ent(fd); if (!e || e->k != FdEnt::FILE_) return -1; size_t k = e->off; e->off = (size_t)o; ssize_t r = fileWrite(*e, buf, n); e->off = k; return r; }
ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t o) { FdEnt *e = ent(fd); if (!e || e->k != FdEnt::FILE_) return -1; size_t k = e->off; e->off = (size_t)o; ssize_t r = fileRead(*e, buf, n); e->off = k; return r; }
off_t __wrap_lseek(int fd, off_t o, int wh) { FdEnt *e = ent(fd); if (!e || e->k != FdEnt::FILE_) { errno = ESPIPE; return -1; } if (wh == SEEK_SET) e->off = (size_t)o; else if (wh == SEEK_CUR) e->off += o; else e->off = e->ino->cur.size() + o; return (off_t)e->off; }
int __wrap_ftruncate(int fd, off_t n) { ENTER("ftruncate"); FdEnt *e = ent(fd); if (!e || e->k != FdEnt::FILE_) return -1; e->ino->cur.resize((size_t)n); return 0; }
int __wrap_truncate(const char *p, off_t n) { ENTER("truncate"); auto *c = W.disk.content(normPath(p)); if (!c) { errno = ENOENT; return -1; } c->resize((size_t)n); return 0; }
static int doSync(int fd) {
    FdEnt *e = ent(fd); if (!e || e->k != FdEnt::FILE_) return -1;
    if (int er = diskFault("fsync")) { errno = er; return -1; }
    if (e->path == "" || e->path == "." || e->path == "/") { W.disk.syncDir(); return 0; }
    e->ino->dur = e->ino->cur; e->ino->synced = true;
    return 0;
}
int __wrap_fsync(int fd) { ENTER("fsync"); return doSync(fd); }
int __wrap_fdatasync(int fd) { ENTER("fdatasync"); return doSync(fd); }
int __wrap_rename(const char *a, const char *b) {
    ENTER("rename");
    std::string x = normPath(a), y = normPath(b);
    if (int er = diskFault("rename")) { errno = er; return -1; }
    auto it = W.disk.cur.find(x);
    if (it == W.disk.cur.end()) { errno = ENOENT; return -1; }
    auto ino = it->second;
    W.disk.cur.erase(it);
    W.disk.cur[y] = ino;
    W.disk.pend.push_back({1, x, y, ino});
    logf("rename %s %s", x.c_str(), y.c_str());
    return 0;
}
int __wrap_unlink(const char *a) {
    ENTER("unlink");
    std::string x = normPath(a);
    if (!W.disk.cur.count(x)) { errno = ENOENT; return -1; }
    auto ino = W.disk.cur[x];
    W.disk.cur.erase(x); W.disk.pend.push_back({2, x, "", ino});
    return 0;
}
int __wrap_remove(const char *a) { return __wrap_unlink(a); }
int __wrap_fchmod(int fd, mode_t) { ENTER("fchmod"); return ent(fd) ? 0 : -1; }
int __wrap_chmod(const char *, mode_t) { return 0; }
int __wrap_access(const char *p, int) { ENTER("access"); if (W.disk.exists(normPath(p))) return 0; errno = ENOENT; return -1; }
static int fillStat(struct stat *st, std::string *c) { memset(st, 0, sizeof *st); if (!c) { errno = ENOENT; return -1; } st->st_mode = S_IFREG | 0644; st->st_size = (off_t)c->size(); return 0; }
int __wrap_stat(const char *p, struct stat *st) { ENTER("stat"); return fillStat(st, W.disk.content(normPath(p))); }
int __wrap_lstat(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_fstat(int fd, struct stat *st) { ENTER("fstat"); FdEnt *e = ent(fd); if (!e) return -1; memset(st, 0, sizeof *st); if (e->k == FdEnt::FILE_) return fillStat(st, &e->ino->cur); st->st_mode = S_IFSOCK; return 0; }

// stdio on simulated files
struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return __wrap_read(((Cookie *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t d = 0; while (d < n) { ssize_t r = __wrap_write(((Cookie *)c)->fd, b + d, n - d); if (r <= 0) break; d += (size_t)r; } return (ssize_t)d; }
static int ck_close(void *c) { Cookie *k = (Cookie *)c; int r = __wrap_close(k->fd); delete k; return r; }
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = __wrap_lseek(((Cookie *)c)->fd, (off_t)*o, wh); if (r < 0) return -1; *o = r; return 0; }
static std::map<FILE *, int> g_files;
static FILE *mkFile(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(new Cookie{fd}, mode, io);
    g_files[f] = fd;
    return f;
}
FILE *__wrap_fopen(const char *p, const char *mode) {
    int fl = O_RDONLY;
    if (mode[0] == 'w') fl = O_WRONLY | O_CREAT | O_TRUNC;
    if (mode[0] == 'a') fl = O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = simOpen(p, fl);
    if (fd < 0) return nullptr;
    FILE *f = mkFile(fd, mode);
    if (f && mode[0] == 'w') setvbuf(f, new char[1024], _IOFBF, 1024);   // a file system with small blocks: several writes per file
    return f;
}
FILE *__wrap_fopen64(const char *p, const char *mode) { return __wrap_fopen(p, mode); }
FILE *__wrap_fdopen(int fd, const char *mode) { if (!ent(fd)) return nullptr; return mkFile(fd, mode); }
int __wrap_fileno(FILE *f) { auto i = g_files.find(f); if (i != g_files.end()) return i->second; return f == stdout ? 1 : f == stderr ? 2 : 0; }
int __wrap_fclose(FILE *f) { g_files.erase(f); return fclose(f); }

// sockets
int __wrap_socket(int dom, int type, int) {
    ENTER("socket");
    if (startFault(ST_SOCKET)) return -1;
    int fd = allocFd(); if (fd < 0) { errno = EMFILE; return -1; }
    W.fds[fd] = FdEnt(); W.fds[fd].k = FdEnt::SOCK; W.fds[fd].nonblock = type & SOCK_NONBLOCK; W.fds[fd].cloexec = type & SOCK_CLOEXEC;
    W.fds[fd].fam = dom; W.fds[fd].v6only = W.opt & 512; return fd;
}
static int g_bindport(const struct sockaddr *a) { return a->sa_family == AF_INET6 ? ntohs(((const sockaddr_in6 *)a)->sin6_port) : ntohs(((const sockaddr_in *)a)->sin_port); }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t) {
    ENTER("bind"); FdEnt *e = ent(fd); if (!e) return -1;
    if (startFault(ST_BIND)) return -1;
    int port = g_bindport(a); char num[64] = "";
    if (a->sa_family == AF_INET6) inet_ntop(AF_INET6, &((const sockaddr_in6 *)a)->sin6_addr, num, sizeof num); else inet_ntop(AF_INET, &((const sockaddr_in *)a)->sin_addr, num, sizeof num);
    if (W.timeWait.count(port)) { if (!e->reuse) { logf("  port %d in TIME_WAIT", port); errno = EADDRINUSE; return -1; } stat(P_STARTTW); }
    e->port = port; e->bound = num; e->ls = port == W.portTls && W.portTls != W.portPlain; return 0;
}
int __wrap_listen(int fd, int) { ENTER("listen"); FdEnt *e = ent(fd); if (!e) return -1; if (startFault(ST_LISTEN)) return -1; e->k = e->ls ? FdEnt::LISTENSSL : FdEnt::LISTEN; return 0; }
static int doAccept(int fd, struct sockaddr *a, socklen_t *l) {
    ENTER("accept");
    FdEnt *e = ent(fd); if (!e) return -1;
    fdWork(fd);
    if (W.acceptErrCount > 0) {
        W.acceptErrCount--; stat(F_ACCEPTERR); errno = W.acceptErr;
        if (errno == ECONNABORTED) { auto &q = e->k == FdEnt::LISTENSSL ? W.backlogTls : W.backlogPlain; if (!q.empty()) { Conn *c = W.byId(q.front()); q.pop_front(); if (c) { c->serverClosed = true; c->rst = true; } } }
        if (W.acceptErr == EAGAIN) wouldBlock(fd, "accept");
        errno = W.acceptErr;
        return -1;
    }
    auto &q = e->k == FdEnt::LISTENSSL ? W.backlogTls : W.backlogPlain;
    if (q.empty()) { wouldBlock(fd, "accept"); errno = EAGAIN; return -1; }
    int nfd = allocFd();
    if (nfd < 0) { stat(F_EMFILE); stat(P_FULL); errno = EMFILE; return -1; }
    int id = q.front(); q.pop_front();
    Conn &c = *W.conns[id];
    c.fd = nfd; c.accepted = true; c.slotUse = W.slotUses[nfd];
    if (c.slotUse) stat(P_SLOTREUSE);
    W.fds[nfd] = FdEnt(); W.fds[nfd].k = FdEnt::CONN; W.fds[nfd].conn = id;
    logf("accept conn %d fd %d", id, nfd);
    if (a && l) connAddr(c, a, l);
    return nfd;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { return doAccept(fd, a, l); }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { int r = doAccept(fd, a, l); if (r >= 0) { W.fds[r].nonblock = fl & SOCK_NONBLOCK; W.fds[r].cloexec = fl & SOCK_CLOEXEC; } return r; }
int __wrap_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t l) {
    ENTER("setsockopt");
    FdEnt *e = ent(fd);
    if (e && e->k == FdEnt::CONN && W.sockoptFail > 0) { W.sockoptFail--; stat(F_SOCKOPT); errno = ENOBUFS; return -1; }
    if (e && e->k != FdEnt::CONN && startFault(ST_SOCKOPT)) return -1;
    int on = v && l >= sizeof(int) ? *(const int *)v : 0;
    if (e && e->k == FdEnt::CONN && lvl == SOL_SOCKET && opt == SO_LINGER && l >= sizeof(struct linger)) { auto *g = (const struct linger *)v; W.conns[e->conn]->linger0 = g->l_onoff && !g->l_linger; }   // closing it resets it
    if (e && lvl == SOL_SOCKET && opt == SO_REUSEADDR) e->reuse = on;
    if (e && lvl == IPPROTO_IPV6 && opt == IPV6_V6ONLY) e->v6only = on;
    return e ? 0 : -1;
}
int __wrap_getsockopt(int fd, int, int opt, void *v, socklen_t *l) { ENTER("getsockopt"); if (!ent(fd)) return -1; if (v && l && *l >= sizeof(int)) *(int *)v = (opt == SO_ERROR && W.byFd(fd) && W.byFd(fd)->rst) ? ECONNRESET : 0; return 0; }
int __wrap_shutdown(int fd, int) { ENTER("shutdown"); return ent(fd) ? 0 : -1; }
static int doFcntl(int fd, int cmd, long arg) {
    ENTER("fcntl");
    FdEnt *e = ent(fd);
    if (!e) return -1;
    if (e->k != FdEnt::CONN && e->k != FdEnt::FILE_ && startFault(ST_FCNTL)) return -1;
    if (cmd == F_SETFD) { e->cloexec = arg & FD_CLOEXEC; return 0; }
    if (cmd == F_GETFD) return e->cloexec ? FD_CLOEXEC : 0;
    if (cmd == F_SETFL) { e->nonblock = arg & O_NONBLOCK; return 0; }
    if (cmd == F_GETFL) return O_RDWR | (e->nonblock ? O_NONBLOCK : 0);
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return doFcntl(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return doFcntl(fd, cmd, a); }
int __wrap_ioctl(int fd, unsigned long rq, ...) { ENTER("ioctl"); FdEnt *e = ent(fd); if (!e) return -1; if (rq == FIONBIO) { va_list ap; va_start(ap, rq); int *p = va_arg(ap, int *); va_end(ap); e->nonblock = *p != 0; } return 0; }

}  // extern C

int connAddr(Conn &c, struct sockaddr *sa, socklen_t *l) {
    if (c.addr.find(':') != std::string::npos) {
        sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(40000 + c.id);
        inet_pton(AF_INET6, c.addr.c_str(), &s.sin6_addr);
        memcpy(sa, &s, std::min((size_t)*l, sizeof s)); *l = sizeof s;
    } else {
        sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(40000 + c.id);
        inet_pton(AF_INET, c.addr.c_str(), &s.sin_addr);
        memcpy(sa, &s, std::min((size_t)*l, sizeof s)); *l = sizeof s;
    }
    return 0;
}
static std::string numeric(const struct sockaddr *sa) {
    char b[INET6_ADDRSTRLEN] = "";
    if (sa->sa_family == AF_INET6) inet_ntop(AF_INET6, &((const sockaddr_in6 *)sa)->sin6_addr, b, sizeof b);
    else if (sa->sa_family == AF_INET) inet_ntop(AF_INET, &((const sockaddr_in *)sa)->sin_addr, b, sizeof b);
    return b;
}

extern "C" {
int __wrap_getpeername(int fd, struct sockaddr *sa, socklen_t *l) {
    ENTER("getpeername");
    Conn *c = W.byFd(fd); if (!c) { errno = ENOTSOCK; return -1; }
    if (c->peernameErr > 0) { stat(F_PEERNAME); errno = ENOTCONN; return -1; }
    return connAddr(*c, sa, l);
}
int __wrap_getsockname(int fd, struct sockaddr *sa, socklen_t *l) {
    ENTER("getsockname"); if (!ent(fd)) return -1;
    sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(7326); inet_pton(AF_INET, "10.1.1.1", &s.sin_addr);
    memcpy(sa, &s, std::min((size_t)*l, sizeof s)); *l = sizeof s; return 0;
}
int __wrap_getnameinfo(const struct sockaddr *sa, socklen_t, char *host, socklen_t hl, char *serv, socklen_t sl, int flags) {
    ENTER("getnameinfo");
    if (serv && sl) snprintf(serv, sl, "0");
    std::string num = numeric(sa), name;
    if (flags & NI_NUMERICHOST) name = num;
    else {
        for (auto &p : W.conns) if (p.second->addr == num && !p.second->serverClosed) { name = p.second->rev; if (p.second->alive()) break; }
        if (name.empty()) { stat(F_DNSFAIL); if (flags & NI_NAMEREQD) return EAI_NONAME; name = num; }
    }
    if (!host || !hl) return 0;
    if (name.size() + 1 > hl) return EAI_OVERFLOW;
    memcpy(host, name.c_str(), name.size() + 1);
    return 0;
}
static struct addrinfo *mkAi(const std::string &num, int port) {
    struct addrinfo *a = (struct addrinfo *)calloc(1, sizeof *a);
    sockaddr_storage *ss = (sockaddr_storage *)calloc(1, sizeof *ss);
    if (num.find(':') != std::string::npos) { auto *s = (sockaddr_in6 *)ss; s->sin6_family = AF_INET6; s->sin6_port = htons(port); inet_pton(AF_INET6, num.c_str(), &s->sin6_addr); a->ai_family = AF_INET6; a->ai_addrlen = sizeof(sockaddr_in6); }
    else { auto *s = (sockaddr_in *)ss; s->sin_family = AF_INET; s->sin_port = htons(port); inet_pton(AF_INET, num.c_str(), &s->sin_addr); a->ai_family = AF_INET; a->ai_addrlen = sizeof(sockaddr_in); }
    a->ai_addr = (sockaddr *)ss; a->ai_socktype = SOCK_STREAM;
    return a;
}
// the addresses of this host, or of a name of it, in the order the resolver gives them
static std::vector<std::string> hostAddrs(const std::string &node, bool passive) {
    std::vector<std::string> v;
    if (node == "127.0.0.1") return {node};
    std::string a4 = node.empty() ? (passive ? "0.0.0.0" : "127.0.0.1") : "10.1.1.1", a6 = node.empty() ? (passive ? "::" : "::1") : "2001:db8::77";
    if (!node.empty() && node != "chat.example.com") return v;
    switch (W.opt >> 7 & 3) { case 0: return {a4, a6}; case 1: return {a6, a4}; case 2: return {a4}; default: return {a6}; }
}
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    ENTER("getaddrinfo");
    *res = nullptr;
    int port = service ? atoi(service) : 0;
    struct addrinfo **tail = res;
    if (!node || W.booting) {   // an address to listen on
        if (startFault(ST_GAI)) return W.startErr;
        std::vector<std::string> v = hostAddrs(node ? node : "", hints && (hints->ai_flags & AI_PASSIVE));
        for (auto &n : v) {
            bool v6 = n.find(':') != std::string::npos;
            if (hints && hints->ai_family == (v6 ? AF_INET : AF_INET6)) continue;
            *tail = mkAi(n, port); tail = &(*tail)->ai_next;
        }
        return *res ? 0 : EAI_NONAME;
    }
    for (auto &p : W.conns) {
        Conn &c = *p.second;
        if (c.rev != node || c.serverClosed) continue;
        std::string f = c.fwd; size_t i = 0;
        while (i < f.size()) {
            size_t j = f.find(',', i); if (j == std::string::npos) j = f.size();
            std::string n = f.substr(i, j - i); i = j + 1;
            bool v6 = n.find(':') != std::string::npos;
            if (hints && hints->ai_family == AF_INET && v6) continue;
            if (hints && hints->ai_family == AF_INET6 && !v6) continue;
            *tail = mkAi(n, port); tail = &(*tail)->ai_next;
        }
        break;
    }
    if (!*res) { stat(F_DNSFAIL); return EAI_NONAME; }
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { while (a) { auto *n = a->ai_next; free(a->ai_addr); free(a); a = n; } }
int __wrap_gethostname(char *n, size_t l) { ENTER("gethostname"); if (startFault(ST_HOSTNAME)) { if (!W.bindGiven || W.bindHost.empty()) modelHost(W.hostName = ""); return -1; } snprintf(n, l, "sim.host"); return 0; }

// time
time_t __wrap_time(time_t *t) { time_t r = W.now(); if (t) *t = r; return r; }
int __wrap_gettimeofday(struct timeval *tv, void *) { if (tv) { tv->tv_sec = (time_t)(W.usNow / 1000000); tv->tv_usec = (suseconds_t)(W.usNow % 1000000); } return 0; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { uint64_t u = id == CLOCK_REALTIME ? W.usNow : W.usMono; ts->tv_sec = (time_t)(u / 1000000); ts->tv_nsec = (long)(u % 1000000) * 1000; return 0; }
static void slept(uint64_t us) { if (us >= 500000) violation(T(5), "sleeps", "the server sleeps for " + std::to_string(us / 1000) + " ms outside its event loop"); }
unsigned __wrap_sleep(unsigned s) { slept((uint64_t)s * 1000000); W.usNow += (uint64_t)s * 1000000; W.usMono += (uint64_t)s * 1000000; return 0; }
int __wrap_usleep(useconds_t s) { slept(s); W.usNow += s; W.usMono += s; return 0; }
int __wrap_nanosleep(const struct timespec *r, struct timespec *) { slept((uint64_t)r->tv_sec * 1000000 + (uint64_t)r->tv_nsec / 1000); W.usNow += (uint64_t)r->tv_sec * 1000000 + (uint64_t)r->tv_nsec / 1000; return 0; }
unsigned __wrap_alarm(unsigned) { return 0; }

// process
static int g_pid = 4000, g_forks;
pid_t __wrap_getpid(void) { return g_pid; }
pid_t __wrap_fork(void) { ENTER("fork"); if (startFault(ST_FORK)) return -1; if (handFault(3)) { errno = W.handErr; return -1; } g_pid += 7; g_forks++; return 0; }
int __wrap_daemon(int, int) { return __wrap_fork() < 0 ? -1 : 0; }
static int doExec(const char *p, char *const *av) {
    ENTER("execve"); logf("exec %s", p);
    if (!W.restartPending) violation(T(13, 24), "exec", "the server replaced itself without an administrator telling it to");
    if (W.handFired) violation(T(24), "exec-anyway", "the server went on with a restart although it could not be prepared");
    if (handFault(4)) { errno = W.handErr; return -1; }
    if (strcmp(p, "icbd")) violation(T(24), "exec-wrong", std::string("the server replaced itself with another program: ") + p);
    W.execArgv.clear();
    for (; *av; av++) W.execArgv.push_back(*av);
    serverGone(3);
    return -1;
}
int __wrap_execve(const char *p, char *const *av, char *const *) { return doExec(p, av); }
int __wrap_execv(const char *p, char *const *av) { return doExec(p, av); }
int __wrap_execvp(const char *p, char *const *av) { return doExec(p, av); }
int __wrap_system(const char *) { return -1; }
int __wrap_kill(pid_t, int) { return 0; }
void __wrap_exit(int code) { logf("exit %d", code); W.exitCode = code; serverGone(1); }
void __wrap__exit(int code) { __wrap_exit(code); }
void __wrap_abort(void) { violation(ALL, "abort", "server called abort()"); }
void (*__wrap_signal(int n, void (*h)(int)))(int) { auto o = W.sigh[n]; W.sigh[n] = h; return o; }
int __wrap_sigaction(int n, const struct sigaction *a, struct sigaction *) { if (a) W.sigh[n] = a->sa_handler; return 0; }
int __wrap_getrlimit(int, struct rlimit *r) { r->rlim_cur = 1024; r->rlim_max = 4096; return 0; }
int __wrap_setrlimit(int, const struct rlimit *) { return startFault(ST_RLIMIT) ? -1 : 0; }
int __wrap_chdir(const char *) { return 0; }
pid_t __wrap_setsid(void) { return 1; }
long __wrap_random(void) { return (long)(g_rand = g_rand * 6364136223846793005ull + 1) >> 33; }
int __wrap_rand(void) { return (int)(__wrap_random() & 0x7fffffff); }
int __wrap_puts(const char *) { return 0; }
void __wrap_perror(const char *) {}

// poll
static short readiness(int fd) {
    FdEnt *e = (fd >= 0 && fd < (int)W.fds.size() && W.fds[fd].k != FdEnt::FREE) ? &W.fds[fd] : nullptr;
    if (!e) return POLLNVAL;
    if (e->k == FdEnt::LISTEN) return W.backlogPlain.empty() ? 0 : POLLIN;
    if (e->k == FdEnt::LISTENSSL) return W.backlogTls.empty() ? 0 : POLLIN;
    if (e->k == FdEnt::CONN) {
        Conn &c = *W.conns[e->conn];
        if (c.rst) return POLLIN | POLLOUT | POLLERR | POLLHUP;
        short r = 0;
        if (!c.rx.empty() || c.finDelivered) r |= POLLIN;
        size_t freeb = c.cap > c.tx.size() ? c.cap - c.tx.size() : 0;
        if (freeb > 0 && freeb * 3 >= c.cap) r |= POLLOUT;
        return r;
    }
    return POLLIN | POLLOUT;
}

static int doPoll(struct pollfd *p, nfds_t n, int timeout) {
    ENTER("poll");
    simPollEntry();
    W.sysSincePoll = 0; W.polled = true; W.turn++; W.pollFailed = W.pollEintr > 0 || W.pollErrN > 0;
    if (W.pollEintr > 0) { W.pollEintr--; stat(F_POLLEINTR); errno = EINTR; for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return -1; }
    if (W.pollErrN > 0) { W.pollErrN--; stat(F_POLLERR); W.lastIdleMono = W.usMono; W.idleLate = 0; W.usNow += 1000; W.usMono += 1000; errno = W.pollErr; return -1; }   // the kernel leaves revents as they were
    int cnt = 0; bool slowPending = false, otherReady = false;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0) continue;
        short r = readiness(p[i].fd);
        p[i].revents = r & (p[i].events | POLLERR | POLLHUP | POLLNVAL);
        if (p[i].revents) {
            cnt++;
            Conn *c = W.byFd(p[i].fd);
            if (c && c->slow && p[i].revents == POLLIN) slowPending = true; else otherReady = true;
        }
    }
    if (cnt == 0) {
        if (timeout < 0 || timeout > 30000) violation(T(19, 20, 10), "sleeps", "with nothing to do the server sleeps for " + std::string(timeout < 0 ? "ever" : std::to_string(timeout) + " ms") + ": rules that act on time are not applied");
        uint64_t ms = (uint64_t)timeout;
        W.usNow += ms * 1000; W.usMono += ms * 1000; W.sh->simMs += ms;
        W.readyNoWork = 0;
    } else {
        uint64_t us = slowPending && !otherReady ? 250000 : 100;
        W.usNow += us; W.usMono += us; W.sh->simMs += us / 1000;
        if (W.workSincePoll == 0 && !slowPending) {
            if (++W.readyNoWork > 25) {
                std::string who;
                for (nfds_t i = 0; i < n; i++) if (p[i].revents) who += " fd" + std::to_string(p[i].fd) + ":" + std::to_string(p[i].revents);
                violation(T(5), "busy-loop", "poll() keeps reporting ready descriptors the server does not act on:" + who);
            }
        } else W.readyNoWork = 0;
    }
    W.workSincePoll = 0;
    return cnt;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout) { return doPoll(p, n, timeout); }
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return doPoll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }
int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    std::vector<pollfd> v;
    for (int i = 0; i < nfds; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) v.push_back({i, ev, 0}); }
    int rc = doPoll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
    if (rc < 0) return rc;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
    int c = 0;
    for (auto &p : v) { if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLERR | POLLHUP))) { FD_SET(p.fd, r); c++; } if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; } }
    return c;
}

// ---------------------------------------------------------------- TLS, server side
static int bio_write(BIO *b, const char *buf, int n) {
    BIO_clear_retry_flags(b);
    Conn *c = W.byFd((int)(long)BIO_get_data(b));
    if (!c) { errno = EBADF; return -1; }
    sysEnter("tls-write");
    ssize_t r = rawSend(*c, buf, (size_t)n);
    if (r < 0 && errno == EAGAIN) BIO_set_retry_write(b);
    return (int)r;
}
static int bio_read(BIO *b, char *buf, int n) {
    BIO_clear_retry_flags(b);
    Conn *c = W.byFd((int)(long)BIO_get_data(b));
    if (!c) { errno = EBADF; return -1; }
    sysEnter("tls-read");
    ssize_t r = rawRecv(*c, buf, (size_t)n);
    if (r < 0 && errno == EAGAIN) BIO_set_retry_read(b);
    return (int)r;
}
static long bio_ctrl(BIO *, int cmd, long, void *) { return cmd == BIO_CTRL_FLUSH ? 1 : 0; }
static int bio_create(BIO *b) { BIO_set_init(b, 1); return 1; }
static BIO_METHOD *g_bm;
static void sslAlive(const SSL *s, const char *f);

int __wrap_SSL_set_fd(SSL *s, int fd) {
    sslAlive(s, "SSL_set_fd");
    if (!g_bm) {
        g_bm = BIO_meth_new(BIO_TYPE_SOURCE_SINK | BIO_get_new_index(), "sim");
        BIO_meth_set_write(g_bm, bio_write); BIO_meth_set_read(g_bm, bio_read); BIO_meth_set_ctrl(g_bm, bio_ctrl); BIO_meth_set_create(g_bm, bio_create);
    }
    BIO *b = BIO_new(g_bm);
    BIO_set_data(b, (void *)(long)fd);
    SSL_set_bio(s, b, b);
    SSL_set_app_data(s, (void *)(long)(fd + 1));
    return 1;
}
int __wrap_SSL_get_fd(const SSL *s) { return (int)(long)SSL_get_app_data(s) - 1; }
// OpenSSL's memory is not watched by the sanitizer, so which SSL objects exist is tracked here
static std::set<const SSL *> g_ssl;
static void sslAlive(const SSL *s, const char *f) { if (!g_ssl.count(s)) violation(T(2, 4, 5), "ssl-object", std::string(f) + " is called with an SSL object that does not exist (any more)"); }
SSL *__wrap_SSL_new(SSL_CTX *c) { if (W.sslNewFail > 0) { W.sslNewFail--; stat(F_SSLNEW); return nullptr; } SSL *s = SSL_new(c); if (s) g_ssl.insert(s); return s; }
void __wrap_SSL_free(SSL *s) { if (s) { sslAlive(s, "SSL_free"); g_ssl.erase(s); } SSL_free(s); }
int __wrap_SSL_pending(const SSL *s) { sslAlive(s, "SSL_pending"); return SSL_pending(s); }
int __wrap_SSL_want(const SSL *s) { sslAlive(s, "SSL_want"); return SSL_want(s); }
int __wrap_SSL_shutdown(SSL *s) { sslAlive(s, "SSL_shutdown"); return SSL_shutdown(s); }
int __wrap_SSL_get_error(const SSL *s, int r) { sslAlive(s, "SSL_get_error"); return SSL_get_error(s, r); }
int __wrap_SSL_write(SSL *s, const void *buf, int n) {
    sslAlive(s, "SSL_write");
    std::string copy((const char *)buf, n > 0 ? (size_t)n : 0);
    unsigned long before = ERR_peek_last_error();
    int r = SSL_write(s, buf, n);
    Conn *c = W.byFd((int)(long)SSL_get_app_data(s) - 1);
    if (!c) return r;
    if (r > 0) { c->plainOut.append(copy, 0, (size_t)r); feedPlain(*c, copy.data(), (size_t)r); }
    else if (sslGenuine(s, r, before)) c->sslErr = true;
    return r;
}
int __wrap_SSL_write_ex(SSL *s, const void *buf, size_t n, size_t *out) { int r = __wrap_SSL_write(s, buf, (int)n); if (r > 0) { *out = (size_t)r; return 1; } return 0; }
int __wrap_SSL_read(SSL *s, void *buf, int n) {
    sslAlive(s, "SSL_read");
    unsigned long before = ERR_peek_last_error();
    int r = SSL_read(s, buf, n);
    if (r > 0) { volatile char t = ((volatile char *)buf)[r - 1]; (void)t; }
    Conn *c = W.byFd((int)(long)SSL_get_app_data(s) - 1);
    if (c && r <= 0) {
        unsigned long pk = ERR_peek_error();
        if (sslGenuine(s, r, before)) {
            // an error left over from another connection is not this connection's error
            if (!(c->rst || c->finSeen || c->finDelivered || c->sentBad || c->writeErr || c->garbage || c->corrupt) && pk) c->sslErr = false; else c->sslErr = true;
        }
    }
    return r;
}
int __wrap_SSL_read_ex(SSL *s, void *buf, size_t n, size_t *out) { int r = __wrap_SSL_read(s, buf, (int)n); if (r > 0) { *out = (size_t)r; return 1; } return 0; }
int __wrap_SSL_accept(SSL *s) {
    sslAlive(s, "SSL_accept");
    unsigned long before = ERR_peek_last_error();
    int r = SSL_accept(s);
    Conn *c = W.byFd((int)(long)SSL_get_app_data(s) - 1);
    if (c && r <= 0 && sslGenuine(s, r, before)) c->sslErr = true;
    return r;
}
static EVP_PKEY *g_pkey; static X509 *g_cert;   // parsed once, before forking
int __wrap_SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *, int) { if (startFault(ST_PEM)) return 0; return SSL_CTX_use_PrivateKey(c, g_pkey); }
int __wrap_SSL_CTX_use_certificate_file(SSL_CTX *c, const char *, int) { if (startFault(ST_PEM)) return 0; return SSL_CTX_use_certificate(c, g_cert); }
int __wrap_SSL_CTX_use_certificate_chain_file(SSL_CTX *c, const char *) { if (startFault(ST_PEM)) return 0; return SSL_CTX_use_certificate(c, g_cert); }

// ---------------------------------------------------------------- callback interposition
typedef struct { void (*idle)(int); void (*dispatch)(int, char *); void (*new_client)(int, int); void (*lost_client)(int); int (*ok2read)(int); } Cb;
static Cb g_cb;
int g_okNested = 0;
static void cb_idle(int i) { if (i != 1) { W.lastIdleMono = W.usMono; W.idleLate = 0; } if (g_cb.idle) { W.inCallback = true; W.cbFd = -1; W.cbseq++; if (i != 1) modelIdle(); g_cb.idle(i); modelAfter(); W.inCallback = false; } }
static void cb_dispatch(int i, char *d) {
    checkDispatch(i, d);
    W.inCallback = true; W.cbFd = i; W.cbseq++; W.sh->dispatches++;
    size_t L = (unsigned char)d[0];
    modelDispatch(i, std::string(d + 1, L));
    if (g_cb.dispatch) g_cb.dispatch(i, d);
    modelAfter(); W.inCallback = false;
}
static void cb_new(int i, int s) {
    checkNew(i, s);
    W.inCallback = true; W.cbFd = i; W.cbseq++; modelNewClient(i, s); if (g_cb.new_client) g_cb.new_client(i, s); modelAfter(); W.inCallback = false;
}
static void cb_lost(int i) {
    checkLost(i);
    W.inCallback = true; W.cbFd = i; W.cbseq++; modelLost(i); if (g_cb.lost_client) g_cb.lost_client(i); modelAfter(); W.inCallback = false;
}
// Memory of the packet layer: an allocation fails while it sends (that packet to that client is lost) or receives (that client is lost).
static int g_inSend = 0;
static bool allocFails() {
    if (W.allocKind == 0 || !W.inServer || !W.polled) return false;
    if (W.allocKind == 1 ? !g_inSend : W.inCallback) return false;
    if (W.allocAt-- > 0) return false;
    if (W.allocKind == 2) for (auto &p : W.conns) if (p.second->alive()) { if (p.second->announced) p.second->mayEnd = 6; else if (p.second->accepted) p.second->acceptNoMem = true; }
    W.allocKind = g_inSend ? -1 : 0; stat(F_ALLOC); errno = ENOMEM; logf("  allocation fails"); return true;
}
// Blocks the server has allocated and not freed, for the search for lost ones (leakCheck). The table is mapped memory that the search does not look at.
struct Blk { uintptr_t p; size_t n; bool start; };   // start: allocated before the event loop began; a lost one of these is lost once
enum { NBLK = 1 << 16 };
static Blk *g_blk; static long g_blkLive;
static inline size_t blkSlot(uintptr_t p) { return (size_t)((p >> 4) * 0x9E3779B97F4A7C15ull >> 48) & (NBLK - 1); }
static void *blkAdd(void *q, size_t n) {
    if (!q || !W.inServer || g_blkLive > NBLK / 2) return q;
    if (!g_blk) { g_blk = (Blk *)mmap(nullptr, sizeof(Blk) * NBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (g_blk == MAP_FAILED) harnessError("no memory"); }
    size_t i = blkSlot((uintptr_t)q); while (g_blk[i].p > 1 && g_blk[i].p != (uintptr_t)q) i = (i + 1) & (NBLK - 1);
    if (g_blk[i].p != (uintptr_t)q) g_blkLive++;
    g_blk[i] = {(uintptr_t)q, n, !W.polled}; return q;
}
static void blkDel(void *q) {
    if (!q || !g_blk) return;
    for (size_t i = blkSlot((uintptr_t)q); g_blk[i].p; i = (i + 1) & (NBLK - 1)) if (g_blk[i].p == (uintptr_t)q) { g_blk[i].p = 1; g_blkLive--; return; }
}
void *__wrap_malloc(size_t n) { return allocFails() ? nullptr : blkAdd(malloc(n), n); }
void *__wrap_calloc(size_t n, size_t m) { return allocFails() ? nullptr : blkAdd(calloc(n, m), n * m); }
void *__wrap_realloc(void *p, size_t n) { if (allocFails()) return nullptr; void *q = realloc(p, n); if (q || !n) blkDel(p); return blkAdd(q, n); }
char *__wrap_strdup(const char *s) { char *q = strdup(s); if (q) blkAdd(q, strlen(q) + 1); return q; }
void __wrap_free(void *p) { blkDel(p); free(p); }
char *__wrap_strndup(const char *s, size_t n) { char *q = strndup(s, n); if (q) blkAdd(q, strlen(q) + 1); return q; }
void *__wrap_reallocarray(void *p, size_t n, size_t m) { size_t t; if (__builtin_mul_overflow(n, m, &t)) return nullptr; return __wrap_realloc(p, t); }
static int (*g_realSend)(int, const char *, size_t);
int __wrap_pktserv_send(int fd, const char *pkt, size_t len) {
    Conn *qc = W.byFd(fd); if (qc) qc->sendCalls++;
    g_inSend = 1; int r = g_realSend(fd, pkt, len); g_inSend = 0;
    if (qc && r >= 0 && !qc->writeErr && !qc->sslErr && !qc->rst) {
        long held = ++qc->framesTaken - (long)qc->framesOut;
        if (held > 10) violation(T(3), "queue", "the server holds " + std::to_string(held) + " packets for connection " + std::to_string(qc->id) + ", which does not read");
    }
    if (W.allocKind == -1) { W.allocKind = 0; Conn *c = W.byFd(fd); if (c && len > 1) frameLost(*c, std::string(pkt + 1, len - 1 - (pkt[len - 1] == 0))); }
    return r;
}
static int cb_ok(int i) { int r = g_cb.ok2read ? g_cb.ok2read(i) : 1; checkOk(i, r); return r; }
int __real_pktserv_init(char *, Cb *);
static int (*g_realInit)(char *, Cb *);
int __wrap_pktserv_init(char *c, Cb *cb) {
    g_cb = *cb;
    Cb mine = {cb->idle ? cb_idle : nullptr, cb->dispatch ? cb_dispatch : nullptr, cb->new_client ? cb_new : nullptr, cb->lost_client ? cb_lost : nullptr, cb->ok2read ? cb_ok : nullptr};
    return g_realInit(c, &mine);
}
}  // extern C

// Memory that the server still holds but can no longer reach: searched conservatively from the writable data of every loaded object and from the stack.
extern char **environ;
struct Blks { Blk *b; size_t n; size_t size() const { return n; } Blk &operator[](size_t i) { return b[i]; } Blk &front() { return b[0]; } Blk &back() { return b[n - 1]; } Blk *begin() { return b; } Blk *end() { return b + n; } };
void arenaRanges(void (*f)(char *, char *, void *), void *c);
void blkReset() { if (g_blk) memset(g_blk, 0, sizeof(Blk) * NBLK); g_blkLive = 0; }
__attribute__((no_sanitize("address"))) static void scanRange(uintptr_t a, uintptr_t b, std::vector<size_t> &todo, Blks &v, std::vector<bool> &seen) {
    for (a = (a + 7) & ~(uintptr_t)7; a + 8 <= b; a += 8) {
        uintptr_t x = *(uintptr_t *)a;
        if (x < v.front().p || x > v.back().p + v.back().n) continue;
        size_t lo = 0, hi = v.size(); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (v[m].p <= x) lo = m; else hi = m; }
        if (x >= v[lo].p && x <= v[lo].p + v[lo].n && !seen[lo]) { seen[lo] = true; todo.push_back(lo); }
    }
}
void leakCheck() {
    if (!g_blk || !g_blkLive) return;
    Blks v{(Blk *)mmap(nullptr, sizeof(Blk) * (size_t)g_blkLive, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), 0};
    if (v.b == MAP_FAILED) harnessError("no memory");
    for (size_t i = 0; i < NBLK; i++) if (g_blk[i].p > 1 && v.n < (size_t)g_blkLive) v[v.n++] = g_blk[i];
    if (!v.n) return;
    std::sort(v.begin(), v.end(), [](const Blk &a, const Blk &b) { return a.p < b.p; });
    std::vector<bool> seen(v.size()); std::vector<size_t> todo;
    struct Ctx { std::vector<size_t> *t; Blks *v; std::vector<bool> *s; } ctx{&todo, &v, &seen};
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *c) {
        Ctx &x = *(Ctx *)c; std::string nm = i->dlpi_name ? i->dlpi_name : "";
        if (nm.find("asan") != std::string::npos || nm.find("ubsan") != std::string::npos) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) { uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; scanRange(a, a + i->dlpi_phdr[k].p_memsz, *x.t, *x.v, *x.s); }
        return 0;
    }, &ctx);
    jmp_buf regs; setjmp(regs);
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    scanRange((uintptr_t)&regs, (uintptr_t)&regs + sizeof regs, todo, v, seen);
    scanRange(sp, (uintptr_t)environ, todo, v, seen);
    while (!todo.empty()) { size_t k = todo.back(); todo.pop_back(); scanRange(v[k].p, v[k].p + v[k].n, todo, v, seen); }
    auto any = [&] { for (size_t k = 0; k < v.size(); k++) if (!seen[k] && !v[k].start) return true; return false; };
    if (!any()) return;
    arenaRanges([](char *a, char *b, void *c) { Ctx &x = *(Ctx *)c; scanRange((uintptr_t)a, (uintptr_t)b, *x.t, *x.v, *x.s); }, &ctx);   // what OpenSSL holds
    while (!todo.empty()) { size_t k = todo.back(); todo.pop_back(); scanRange(v[k].p, v[k].p + v[k].n, todo, v, seen); }
    long lost = 0; size_t bytes = 0, first = 0;
    for (size_t k = 0; k < v.size(); k++) if (!seen[k] && !v[k].start) { if (!lost) first = k; lost++; bytes += v[k].n; }
    if (!lost) return;
    std::string b, w; for (size_t i = 0; i < v[first].n; i++) { char c = ((char *)v[first].p)[i]; w = c >= 32 && c < 127 ? w + c : ""; if (w.size() > b.size()) b = w; }
    violation(T(4, 5, 17), "leak", "the server has lost " + std::to_string(lost) + " of its " + std::to_string(v.size()) + " memory blocks (" + std::to_string(bytes) + " bytes): nothing refers to them any more. One of them holds \"" + b.substr(0, 64) + "\"");
}

// ---------------------------------------------------------------- running the server
static int det_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { g_rand ^= g_rand << 13; g_rand ^= g_rand >> 7; g_rand ^= g_rand << 17; b[i] = (unsigned char)(g_rand >> 24); } return 1; }
static int det_status(void) { return 1; }
static RAND_METHOD g_rm = {nullptr, det_bytes, nullptr, nullptr, det_bytes, det_status};

void kernelInitProcess() {
    RAND_set_rand_method(&g_rm);
    g_cctx = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(g_cctx, SSL_VERIFY_NONE, nullptr);
    SSL_CTX_set_session_cache_mode(g_cctx, SSL_SESS_CACHE_OFF);
    {   // run one handshake so that OpenSSL's lazy initialisation happens once, before forking
        SSL_CTX *sc = SSL_CTX_new(TLS_server_method());
        if (SSL_CTX_use_PrivateKey_file(sc, g_pemPath, SSL_FILETYPE_PEM) == 1 && SSL_CTX_use_certificate_file(sc, g_pemPath, SSL_FILETYPE_PEM) == 1) {
            SSL *a = SSL_new(g_cctx), *b = SSL_new(sc); BIO *x, *y;
            BIO_new_bio_pair(&x, 0, &y, 0);
            SSL_set_bio(a, x, x); SSL_set_bio(b, y, y); SSL_set_connect_state(a); SSL_set_accept_state(b);
            for (int i = 0; i < 10; i++) { SSL_do_handshake(a); SSL_do_handshake(b); }
            SSL_free(a); SSL_free(b);
        }
        if (SSL_CTX_get0_privatekey(sc)) { g_pkey = SSL_CTX_get0_privatekey(sc); EVP_PKEY_up_ref(g_pkey); }
        if (SSL_CTX_get0_certificate(sc)) { g_cert = SSL_CTX_get0_certificate(sc); X509_up_ref(g_cert); }
        if (!g_pkey || !g_cert) { fprintf(stderr, "cannot read %s\n", g_pemPath); _exit(3); }
        ERR_clear_error();
        SSL_CTX_free(sc);
    }
}
void seedRand(uint64_t s) { g_rand = s * 2862933555777941757ull + 3037000493ull; if (!g_rand) g_rand = 1; }

// keep: a new program image in the same process, which inherits the descriptors
void kernelReset(bool keep) {
    if (!keep) {
        W.fds.assign(FILE_FD1, FdEnt());
        for (int i = 0; i < 3; i++) W.fds[i].k = FdEnt::STD;
        W.sigh.clear();
        W.backlogPlain.clear(); W.backlogTls.clear();
        for (auto &p : W.conns) if (p.second->accepted && !p.second->rst && !p.second->linger0) W.timeWait.insert(p.second->tls ? W.portTls : W.portPlain);   // what it had or has just ended lingers
        for (auto &p : W.conns) { Conn &c = *p.second; if (!c.serverClosed) { c.serverClosed = true; c.rst = true; c.fd = -1; c.expect.clear(); } }
        W.slotUses.clear();
        W.pollEintr = W.pollErrN = 0; W.execArgv.clear(); W.restartPending = W.handFired = false;
    } else {
        for (auto &p : W.conns) p.second->framesTaken = (long)p.second->framesOut;
        for (auto &e : W.fds) if (e.cloexec && e.k != FdEnt::FREE && e.k != FdEnt::STD) {
            if (e.k != FdEnt::FILE_) violation(T(24), "socket-closed", "a restart closes a socket without its user being told");
            e = FdEnt();
        }
        for (auto &h : W.sigh) if (h.second != SIG_IGN) h.second = nullptr;
    }
    W.inCallback = false; W.polled = false; g_inSend = 0;
    W.sysSincePoll = 0; W.workSincePoll = 0; W.readyNoWork = 0;
    W.lastIdleMono = W.usMono; W.idleLate = 0;
}

// ---------------------------------------------------------------- starting
// opt: 1 options and values apart, 2 default ports, 4 into the background, 8 -c, 16/32 -b: none, an address, a name, empty;
// 64 other ports, 128/256 which addresses the host has, 512 the host keeps IPv6 sockets to IPv6 unless told otherwise
static std::vector<std::string> startArgs() {
    int o = W.opt;
    W.portPlain = (o & 2) ? 7326 : (o & 64) ? 8100 : 7326; W.portTls = (o & 2) ? 7327 : (o & 64) ? 18101 : 7327;
    std::vector<std::string> v{"icbd"};
    auto opt = [&](const std::string &k, const std::string &x) { if ((o & 1) || x.empty()) { v.push_back(k); v.push_back(x); } else v.push_back(k + x); };
    if (!(o & 4)) v.push_back("-f");
    opt("-l", std::to_string(W.logLevel));
    if (o & 8) v.push_back("-c");
    static const char *hosts[] = {"", "127.0.0.1", "chat.example.com", ""};
    W.bindGiven = o >> 4 & 3; W.bindHost = hosts[o >> 4 & 3];
    if (W.bindGiven) opt("-b", W.bindHost);
    if (W.sslPort && (o & 1) && !(o & 2)) { v.push_back("-s"); v.push_back(std::to_string(W.portTls)); }
    if (!(o & 2)) opt("-p", std::to_string(W.portPlain));
    if (W.sslPort && !((o & 1) && !(o & 2))) v.push_back((o & 2) ? "-s" : "-s" + std::to_string(W.portTls));
    return v;
}
static std::string g_before; static bool g_readyChecked = false;
static std::string before() { std::string s; for (auto n : {"icbdb.db", "icbd.pid"}) { std::string *c = W.disk.content(n); s += c ? "+" + *c : std::string("-"); s += '\0'; } return s; }
// the server enters its event loop: it must be what it was told to be
void startReady() {
    if (g_readyChecked) return;
    g_readyChecked = true;
    Tags t = W.booting ? T(26) : T(24, 26);
    std::vector<std::string> ok = hostAddrs(W.bindHost, true);
    std::map<int, std::vector<FdEnt *>> on;
    for (auto &e : W.fds) {
        if (e.k == FdEnt::SOCK) violation(t | T(5), "idle-socket", "the server goes on with a socket (port " + std::to_string(e.port) + ") it does not listen on");
        if (e.k != FdEnt::LISTEN && e.k != FdEnt::LISTENSSL) continue;
        if (e.port != W.portPlain && !(W.sslPort && e.port == W.portTls)) violation(t, "wrong-port", "the server listens on port " + std::to_string(e.port) + ", which it was not told to");
        if (std::find(ok.begin(), ok.end(), e.bound) == ok.end()) violation(t, "wrong-address", "the server listens on " + e.bound + ", which it was not told to");
        if (!e.nonblock) violation(t | T(5), "blocking-listen", "accepting on port " + std::to_string(e.port) + " can stop the whole server");
        on[e.port].push_back(&e);
    }
    for (int port : {W.portPlain, W.portTls}) {
        if (port == W.portTls && !W.sslPort) continue;
        if (on[port].empty()) violation(t, "not-listening", "the server runs but does not listen on port " + std::to_string(port));
        bool v4 = false, v6 = false, only = false;
        for (FdEnt *e : on[port]) { if (e->bound.find(':') == std::string::npos) v4 = true; else { v6 = true; only = e->v6only; } }
        bool both = W.bindHost.empty() && (W.opt >> 7 & 3) < 2;
        if (both && v6 && !v4 && only) violation(t, "half-listening", "the server serves port " + std::to_string(port) + " only to IPv6 clients");
        if (both && v4 && !v6 && !W.startFired) violation(t, "half-listening", "the server serves port " + std::to_string(port) + " only to IPv4 clients");
    }
    if (W.startFired && W.startKind == ST_PEM && W.sslPort) violation(t | T(2), "half-up", "the server runs although it could not load the certificate of its TLS port");
    if (W.startFired && W.startKind == ST_LOG) violation(t, "half-up", "the server runs although it could not open its log");
    std::string *pid = W.disk.content("icbd.pid");
    if (!(W.startFired && (W.startKind == ST_PIDOPEN || W.startKind == ST_PIDWRITE)) && (!pid || atoi(pid->c_str()) != g_pid)) violation(t, "pid-file", "the pid file does not name the running server: " + (pid ? *pid : std::string("(none)")));
    if (W.booting && (W.opt & 4 ? !g_forks : g_forks)) violation(t, "background", g_forks ? "the server went into the background although it was told not to" : "the server did not go into the background");
    if (W.startFired) stat(P_STARTWHOLE);
    if (W.booting) { W.startKind = 0; W.startFired = false; W.timeWait.clear(); W.sh->covTag[26]++; }
    W.booting = false;
}
// the server gave up before it was ready
void startRefused(int code) {
    int kind = W.startKind, cnt = W.startCnt; bool fired = W.startFired;
    W.booting = false; W.startKind = 0; W.startFired = false;
    if (!fired) violation(T(26) | (W.incarnation ? T(15) : 0), "start-refused", "the server does not start (exit " + std::to_string(code) + ") although nothing stands in its way");
    bool two = hostAddrs(W.bindHost, true).size() > 1;
    if (two && cnt == 1 && (kind == ST_SOCKET || kind == ST_BIND || kind == ST_SOCKOPT)) violation(T(26), "start-refused", "one of two addresses to listen on fails and the server does not try the other");
    if (kind == ST_PIDOPEN || kind == ST_PIDWRITE || kind == ST_HOSTNAME) violation(T(26), "start-refused", "the server does not start because of something it can do without");
    if ((code & 255) == 0) violation(T(26), "start-status", "the server does not start and reports success");
    if (before() != g_before) violation(T(26, 15), "start-harm", "a server that could not start changed the database or the pid file");
    stat(P_STARTREFUSED); W.sh->covTag[26]++;
}
void *openServer(const char *so) { return dlopen(so, RTLD_NOW | RTLD_LOCAL); }
int runServerOnce(void *h) {
    int (*mainf)(int, char **) = (int (*)(int, char **))dlsym(h, "icbd_main");
    g_realInit = (int (*)(char *, Cb *))dlsym(h, "pktserv_init");
    g_realSend = (int (*)(int, const char *, size_t))dlsym(h, "pktserv_send");
    if (!mainf || !g_realInit) harnessError("missing symbols in server object");
    optind = 0;
    std::vector<std::string> keepArgs = startArgs(); std::vector<char *> av;
    bool over = !W.execArgv.empty();
    if (!over) W.logOpenFail = 0;   // a server that cannot open its log does not start, which is right
    if (over) { keepArgs.swap(W.execArgv); W.execArgv.clear(); }
    for (auto &x : keepArgs) av.push_back(&x[0]);
    av.push_back(nullptr);
    int argc = (int)keepArgs.size();
    W.hostName = !over && !W.bindHost.empty() ? W.bindHost : "sim.host";
    if (!over) g_pid += 100;
    g_forks = 0; W.booting = !over; W.startFired = false; W.startSeen = 0; g_before = before(); g_readyChecked = false;
    int how = sigsetjmp(g_jb, 0);
    if (how == 0) {
        W.inServer = true;
        if (over) modelHandOver(); else modelBoot();

        mainf(argc, av.data());
        W.exitCode = 0;
        how = 1;
    }
    W.inServer = false;
    return how;
}

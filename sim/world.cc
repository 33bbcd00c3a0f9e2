// Expectation matching, per-connection obligations, step scheduling inside poll().
#include "sim.h"
#include <algorithm>
#include <cstdlib>

static Tags g_opTags = 0;          // tags of the callback being processed
static std::string g_opWhy;
void setOp(Tags t, const std::string &why) { g_opTags = t; g_opWhy = why; }
Tags opTags() { return g_opTags; }

static const int PATIENCE = 10;    // event-loop turns granted to the server for anything it must do

static Tags ctxTags(Conn &c) {
    Tags t = 0;
    if (c.tls) t |= T(2);
    if (c.slotUse > 0) t |= T(17);
    if (W.incarnation > 0) t |= T(15);
    if (W.restartSeen) t |= T(24);
    return t;
}
// what a text says about itself, whichever command it answers
static Tags textTags(const std::string &p) {
    Tags t = 0;
    if (p.compare(0, 5, "dAway") == 0) t |= T(21);
    if (p.find("can't include %d") != std::string::npos || p.find("must contain (only)") != std::string::npos) t |= T(4);
    return t;
}
static Tags typeTags(const std::string &p) {
    if (p.empty()) return T(3);
    Tags x = textTags(p);
    if (x) return x | (p[0] == 'd' ? T(9, 17, 10) | T(12, 21) : 0);
    switch (p[0]) {
        case 'b': return T(6, 8, 17) | T(21);
        case 'c': return T(7, 8, 17) | T(16);
        case 'k': return T(7, 8);
        case 'd': return T(9, 17, 10) | T(12, 21);
        case 'a': return T(18);
        case 'j': return T(18, 17);
        case 'g': return T(18);
        case 'f': return T(13, 20);
        case 'i': return T(9, 12);
        case 'e': return 0;
        default: return T(3);
    }
}
static void covered(Tags t) { for (int i = 1; i < 32; i++) if (t & T(i)) W.sh->covTag[i]++; }

void expectFrame(int fd, const std::string &payload, Tags tags, const std::string &why) {
    Conn *c = W.byFd(fd);
    if (!c) return;
    Expect e; e.frame = payload; e.tags = tags | ctxTags(*c) | textTags(payload); e.why = why; e.qpos = (int)c->expect.size(); e.cbseq = W.polls;
    e.optional = c->mayEnd || c->corrupt || c->kill || c->writeErr || c->sslErr || c->rst || c->readErr || c->finSeen || (c->sentBad && c->sent.empty());
    if (c->blocked) stat(P_QUEUED);
    covered(e.tags);
    if (W.verbose) logf("  expect[%d] %s", fd, esc(payload).c_str());
    c->expect.push_back(e);
}
void expectMatch(int fd, std::function<bool(const std::string &)> m, Tags tags, const std::string &why) {
    Conn *c = W.byFd(fd);
    if (!c) return;
    expectFrame(fd, "<" + why + ">", tags, why);
    c->expect.back().match = m;
}
static bool matches(const Expect &e, const std::string &p) { return e.match ? e.match(p) : e.frame == p; }

void onWireFrame(Conn &c, const std::string &p) {
    logf("  wire[%d] %s", c.fd, esc(p).c_str());
    if (!c.announced && !c.lost) violation(T(5, 17, 2), "early-frame", "server sent a packet on a connection it has not announced: " + esc(p));
    size_t k = 0;
    while (k < c.expect.size() && !matches(c.expect[k], p)) k++;
    if (k == c.expect.size()) {
        Tags t = typeTags(p) | ctxTags(c) | g_opTags;
        if (c.everBlocked) t |= T(3);
        if (!c.expect.empty()) {
            t |= c.expect[0].tags;
            violation(t, "wrong-frame", "connection " + std::to_string(c.id) + " received \"" + esc(p) + "\" but the model expects \"" + esc(c.expect[0].frame) + "\" (" + c.expect[0].why + "); during " + g_opWhy);
        }
        violation(t, "unexpected-frame", "connection " + std::to_string(c.id) + " received \"" + esc(p) + "\" which the model does not expect; during " + g_opWhy);
    }
    for (size_t i = 0; i < k; i++) {
        Expect &e = c.expect[i];
        bool may = e.optional || (c.everBlocked && e.qpos >= 10);
        if (!may) {
            Tags t = e.tags | (c.everBlocked ? T(3) : 0);
            violation(t, "missing-frame", "connection " + std::to_string(c.id) + " did not receive \"" + esc(e.frame) + "\" (" + e.why + ") before \"" + esc(p) + "\"");
        }
        if (!e.optional) stat(F_QDROP);
    }
    // If the frame matched could have been discarded, the one that arrived may be a later identical one.
    auto may = [&](const Expect &e) { return e.optional || (c.everBlocked && e.qpos >= 10); };
    if (may(c.expect[k])) for (size_t i = k + 1; i < c.expect.size(); i++) {
        if (matches(c.expect[i], p)) c.expect[i].optional = true;
        else if (!may(c.expect[i])) break;
    }
    c.expect.erase(c.expect.begin(), c.expect.begin() + (long)k + 1);
    if (c.expect.empty() && c.wirePartial.empty()) c.blocked = false;
    c.starve = 0; c.blockCount = 0;
}

// no memory for this packet
void frameLost(Conn &c, const std::string &p) { for (auto &e : c.expect) if (matches(e, p)) e.optional = true; c.allocLost = true; }

static void missing(Conn &c, const char *when) {
    for (auto &e : c.expect) {
        bool may = e.optional || (c.everBlocked && e.qpos >= 10);
        if (may) continue;
        Tags t = e.tags | (c.everBlocked ? T(3) : 0);
        violation(t, "missing-frame", "connection " + std::to_string(c.id) + " did not receive \"" + esc(e.frame) + "\" (" + e.why + ") " + when);
    }
    c.expect.clear();
    c.blocked = false;
}

// ---------------------------------------------------------------- callbacks from the packet layer
void checkNew(int fd, int secure) {
    Conn *c = W.byFd(fd);
    if (!c) violation(T(5, 17), "bad-callback", "new client announced on a descriptor that is not a connection");
    if (c->announced) violation(T(5, 17), "announced-twice", "connection announced twice");
    if ((secure != 0) != c->tls) violation(T(2), "tls-flag", "connection announced with the wrong security flag");
    if (c->tls && !c->hsDone && (c->garbage || c->hsFail)) violation(T(2), "tls-unauthenticated", "a connection without a completed handshake was treated as a client");
    c->announced = c->everAnnounced = true;
    logf("new[%d] conn %d tls %d", fd, c->id, secure);
}
void checkDispatch(int fd, char *d) {
    Conn *c = W.byFd(fd);
    size_t L = (unsigned char)d[0];
    Tags t = T(1) | (c && c->tls ? T(2) : 0) | (c && c->slotUse ? T(17) : 0);
    if (!c) violation(T(1, 5, 17), "bad-callback", "packet dispatched for a descriptor that is not a connection");
    logf("dispatch[%d] conn %d %s", fd, c->id, esc(std::string(d + 1, std::min(L, (size_t)200))).c_str());
    if (!c->announced || c->lost) violation(t | T(5, 17), "dispatch-dead", "packet dispatched on a connection that is not live");
    if (c->sent.empty()) violation(t, "framing", "server acted on a packet that the client has not (completely) sent: \"" + esc(std::string(d, L + 1)) + "\"");
    const std::string &f = c->sent.front();
    if (L + 1 != f.size() || memcmp(f.data(), d, f.size()) != 0)
        violation(t, "framing", "server acted on \"" + esc(std::string(d, L + 1)) + "\" but the client's next packet is \"" + esc(f) + "\"");
    if (modelOk2read(fd) == 0) violation(T(22), "not-held", "input of a user marked slow was acted on within a second");
    if (d[L + 1] != '\0') violation(t, "framing", "dispatched packet is not terminated");
    if (!c->tls && c->sentEnd.front() > c->delivered) violation(t, "framing", "packet dispatched before it was delivered");
    c->dispEnd = c->sentEnd.front();
    c->sent.pop_front(); c->sentEnd.pop_front();
    c->lastDispatchPoll = W.polls;
    c->starve = c->finAge = 0;
    if (c->kill && c->killAge > 1) violation(t | T(5) | c->killTags, "dispatch-after-kill", "packet of a connection being removed was acted on");
}
static bool causeToEnd(Conn &c) {
    return c.kill || c.mayEnd || c.writeErr || c.readErr || c.sslErr || c.rst || c.finSeen || (c.sentBad && c.sent.empty()) || c.corrupt || c.blockCount > 10;
}
void checkLost(int fd) {
    Conn *c = W.byFd(fd);
    if (!c) violation(T(5, 17), "bad-callback", "loss announced for a descriptor that is not a connection");
    logf("lost[%d] conn %d", fd, c->id);
    if (c->lost) violation(T(5, 17), "lost-twice", "loss of one connection announced twice");
    if (!c->announced) { violation(T(2, 5, 17), "lost-unannounced", "loss announced for a connection that was never announced as a client"); }
    if (!causeToEnd(*c)) violation(T(5) | (c->tls ? T(2) : 0) | (c->everBlocked ? T(3) : 0) | T(1), "ended-without-cause", "server ended connection " + std::to_string(c->id) + " without cause");
    if (c->finSeen && !c->corrupt && !c->rst && !c->kill && !c->writeErr && !c->sslErr && !c->readErr && !c->sent.empty() && !c->everBlocked && !c->slow)
        violation(T(1) | (c->tls ? T(2) : 0), "lost-packets", "connection closed in order but " + std::to_string(c->sent.size()) + " complete packet(s) sent before the close were not acted on: " + esc(c->sent.front()));
    if (!c->mayEnd && !c->corrupt && !c->everBlocked && !c->writeErr && !c->sslErr && !c->rst && !c->readErr && !c->finSeen) missing(*c, "before the connection was ended");
    c->lost = true;
}
void onServerClose(Conn &c) {
    if (c.announced && !c.lost) violation(T(5, 17), "closed-without-loss", "connection of a client closed without the server being told of its loss");
    if (!c.announced && !(c.corrupt || c.sslErr || c.rst || c.finDelivered || c.garbage || c.writeErr || c.readErr || c.acceptNoMem || W.sslNewFail || c.hsFail || W.sh->stat[F_SSLNEW]) && c.fd < W.maxFd - 1)
        violation(T(5) | (c.tls ? T(2) : 0), "closed-without-cause", "server closed a fresh connection without cause");
}
void checkOk(int fd, int r) {
    Conn *c = W.byFd(fd);
    if (c) {
        int e = modelOk2read(fd);
        if (!r) stat(P_SLOWHELD);
        if (e == 1 && !r) violation(T(22, 5), "held", "input of an unrestricted user was held back");
        if (e == 0 && r) violation(T(22), "not-held", "input of a user marked slow was not held back");
        c->slow = !r;
    }
}

// ---------------------------------------------------------------- poll
static int g_idleRounds = 0, g_healPolls = 0, g_healLimit = 0, g_healAccepted = -1;

static void ageing() {
    if (W.pollFailed) return;   // the server has not been told of anything since
    for (auto &p : W.conns) {
        Conn &c = *p.second;
        if (!c.alive()) continue;
        if (c.mayEnd) c.mayEnd--;
        bool space = c.tx.size() < c.cap && (c.cap - c.tx.size()) * 3 >= c.cap && c.eagainW == 0 && c.shortW == 0;
        if (c.tls && c.cap < 1024 && !c.tx.empty()) space = false;
        if (c.kill && !c.lost) { if (++c.killAge > PATIENCE) violation(c.killTags | T(5), "not-removed", "connection " + std::to_string(c.id) + " should have been ended: " + c.killWhy); }
        else c.killAge = 0;
        if (c.announced && !c.lost && (c.rst || c.sslErr || c.readErr || c.writeErr || (c.finDelivered && c.rx.empty() && c.eagainR == 0 && !c.blocked && !c.slow && !(c.allocLost && !space)))) { if (++c.finAge > PATIENCE) violation(T(5, 17), "close-not-noticed", "peer of connection " + std::to_string(c.id) + " is gone but the server does not end the session"); }
        else c.finAge = 0;
        if (!c.announced && c.rst) { if (++c.lostAge > PATIENCE) violation(T(5, 2), "fd-leak", "reset connection " + std::to_string(c.id) + " is never closed"); }
        else if (c.lost || (!c.announced && c.sslErr)) { if (++c.lostAge > PATIENCE) violation(T(5, 17), "fd-leak", "descriptor of ended connection " + std::to_string(c.id) + " is never closed"); }
        else c.lostAge = 0;
        if (c.eagainR > 0) {}   // its reads fail with EAGAIN for a while: that is not counted
        else if (c.closing() || c.blocked || (c.allocLost && !space)) { c.starve = 0; }
        else if (!c.announced && c.accepted && !c.tls) { if (++c.starve > PATIENCE) violation(T(5), "starved", "accepted connection is never greeted"); }
        else if (c.announced && modelOk2read(c.fd) == 1) {
            bool due = !c.rx.empty();
            if (!c.sent.empty()) {
                if (c.tls) due = due || (c.flight.empty() && c.rx.empty());
                else due = due || c.sentEnd.front() <= c.delivered;
            }
            if (due) { if (++c.starve > PATIENCE) violation(T(5, 1) | (c.tls ? T(2) : 0) | (c.slow ? T(22) : 0), "starved", "packet of connection " + std::to_string(c.id) + " has arrived but is not acted on"); }
            else c.starve = 0;
        }
        // a TLS handshake goes on: the client answers at once, so with nothing under way it is the server's turn
        if (c.tls && !c.garbage && c.accepted && !c.announced && !c.corrupt && !c.closing() && !c.sslErr && !c.readErr && !c.writeErr && !c.rst && !c.finQueued && !c.finDelivered && !c.closedByClient && c.flight.empty() && c.tx.empty() && c.eagainR == 0 && c.eagainW == 0) {
            if (++c.hsAge > PATIENCE) violation(T(2, 5), "handshake-stuck", "the TLS handshake of connection " + std::to_string(c.id) + " does not go on although it is the server's turn");
        } else c.hsAge = 0;
        // everything the model expects must go out while there is room
        if (!c.expect.empty() && !c.lost && !c.closing() && space) {
            while (!c.expect.empty() && W.polls > c.expect.front().cbseq + PATIENCE + (c.blocked ? 6 : 0)) {
                Expect &e = c.expect.front();
                if (!(e.optional || (c.everBlocked && e.qpos >= 10))) violation(e.tags | (c.everBlocked ? T(3) : 0), "missing-frame", "connection " + std::to_string(c.id) + " did not receive \"" + esc(e.frame) + "\" (" + e.why + ") although there was room to send it");
                c.expect.erase(c.expect.begin());
            }
            if (c.expect.empty() && c.wirePartial.empty()) c.blocked = false;
        } else if (!c.expect.empty() && !space) { for (auto &e : c.expect) e.cbseq = W.polls; }
    }
}

static void healAll() {
    for (auto &p : W.conns) { Conn &c = *p.second; c.autoRx = c.autoDrain = true; c.cap = 24576; c.shortW = c.eagainW = c.eagainR = 0; c.rdErrno = c.wrErrno = 0; }
    modelDbUp();
    W.diskFaults.clear(); W.acceptErrCount = 0; W.pollEintr = W.pollErrN = 0; W.sslNewFail = 0; W.allocKind = 0; W.sockoptFail = 0; W.crashIn = W.sigIn = -1; W.handKind = W.startKind = 0;
}
static bool quiet() {
    for (auto &p : W.conns) {
        Conn &c = *p.second;
        if (c.serverClosed) continue;
        if (!c.accepted) { if (!W.backlogPlain.empty() || !W.backlogTls.empty()) { bool room = false; for (int i = 3; i < W.maxFd; i++) if (W.fds[i].k == FdEnt::FREE) room = true; if (room) return false; } continue; }
        if (c.lost || c.kill || c.rst || c.finDelivered) return false;
        if (c.corrupt) continue;
        if (!c.flight.empty() || !c.rx.empty() || !c.tx.empty() || !c.sent.empty()) return false;
        for (auto &e : c.expect) if (!e.optional && !(c.everBlocked && e.qpos >= 10)) return false;
    }
    return true;
}
void leakCheck();
static void finalChecks() {
    int open = 0, conns = 0, files = 0; std::string names;
    for (auto &e : W.fds) { if (e.k == FdEnt::CONN) conns++; else if (e.k == FdEnt::FILE_) { files++; names += " " + e.path; } if (e.k != FdEnt::FREE) open++; }
    if (files > 1) violation(T(5, 15, 4), "file-leak", "server leaves " + std::to_string(files - 1) + " file descriptor(s) open besides its log:" + names);
    for (auto &p : W.conns) if (p.second->alive()) conns--;
    if (conns != 0) violation(T(5), "fd-leak", "descriptor accounting");
    modelEndOfRun();
    leakCheck();
}

void startReady();
void simPollEntry() {
    startReady();
    W.polls++;
    if (W.inCallback) violation(T(4, 5), "nested-poll", "server polls from inside a callback");
    ageing();
    if (W.usMono - W.lastIdleMono > 2000000) { if (++W.idleLate > 3) violation(T(19, 20, 10), "no-timer", "the rules that act on time have not been applied for " + std::to_string((W.usMono - W.lastIdleMono) / 1000000) + " s although the server is running"); }
    if (W.polls > 60000) harnessError("too many polls");
    // client ends move
    auto pump = [] {
        for (auto &p : W.conns) {
            Conn &c = *p.second;
            if (c.rstOnData && !c.rst) { c.rst = true; c.rstOnData = false; stat(F_RSTONDATA); }
            if (c.autoDrain && !c.tx.empty()) { bool dummy; applyStep("drain " + std::to_string(c.id) + " -1", dummy); W.sh->steps--; }
            clientPump(c);
            if (c.autoRx && (!c.flight.empty())) { bool dummy; applyStep("dlv " + std::to_string(c.id) + " -1", dummy); W.sh->steps--; }
            else if (c.finQueued && c.flight.empty()) c.finDelivered = true;
        }
    };
    if (W.sh->nSig < 64 && W.polls % 7 == 0) W.sh->stateSig[W.sh->nSig++] = modelSignature();
    if (!W.healing) {
        std::string line; bool isPoll = false;
        for (int guard = 0; guard < 2000; guard++) {
            if (!W.src->next(line)) { W.healing = true; break; }
            if (W.sh->traceLen + line.size() + 2 < sizeof W.sh->trace) {
                memcpy(W.sh->trace + W.sh->traceLen, line.data(), line.size()); W.sh->traceLen += line.size(); W.sh->trace[W.sh->traceLen++] = '\n';
            } else harnessError("trace overflow");
            applyStep(line, isPoll);
            if (isPoll) { pump(); return; }
        }
        if (!W.healing) harnessError("step source emits no poll");
        healAll();
        int pend = 0; for (auto &p : W.conns) pend += (int)p.second->sent.size() + (int)p.second->expect.size();
        g_healLimit = 60 + 4 * pend; g_healPolls = g_idleRounds = 0; g_healAccepted = -1;
        logf("heal");
    }
    pump();
    // a long backlog is served through few descriptors, and much input can be waiting: each connection taken and each packet acted on is progress
    { int acc = (int)W.sh->dispatches; for (auto &p : W.conns) acc += p.second->accepted; if (acc != g_healAccepted) { g_healAccepted = acc; g_healPolls = 0; } }
    if (quiet()) g_idleRounds++; else g_idleRounds = 0;
    if (g_idleRounds >= 14) { finalChecks(); endRun(ST_OK); }
    if (++g_healPolls > g_healLimit + 40) {
        for (auto &p : W.conns) {
            Conn &c = *p.second;
            if (c.serverClosed) continue;
            bool room = false; for (int i = 3; i < W.maxFd; i++) if (W.fds[i].k == FdEnt::FREE) room = true;
            if (!c.accepted && !room) continue;
            if (!c.accepted) violation(T(5, 26) | (c.tls ? T(2) : 0), "not-accepted", "connection " + std::to_string(c.id) + " is never accepted although descriptors are free");
            if (c.slow || (c.corrupt && !c.sslErr && !c.lost)) continue;
            if (!c.sent.empty()) violation(T(1, 5) | (c.tls ? T(2) : 0), "stuck-input", "after all faults stopped, packet of connection " + std::to_string(c.id) + " is never acted on: " + esc(c.sent.front()));
            if (!c.expect.empty()) missing(c, "after all faults stopped");
            if (c.lost || c.kill || c.rst || c.finDelivered) violation(T(5, 17), "stuck-close", "after all faults stopped, connection " + std::to_string(c.id) + " is never disposed of");
            if (!c.flight.empty() || !c.rx.empty() || !c.tx.empty()) violation(T(5, 1, 3) | (c.tls ? T(2) : 0), "stuck-bytes", "after all faults stopped, bytes of connection " + std::to_string(c.id) + " are never processed: rx=" + std::to_string(c.rx.size()) + " tx=" + std::to_string(c.tx.size()) + " flight=" + std::to_string(c.flight.size()));
        }
        finalChecks();
        endRun(ST_OK);
    }
}

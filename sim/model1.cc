// Reference model, part 1: text rules, tables, sending, login, open messages, dispatch, idle processing, departure.
#include "model.h"
#include "version.h"
#include <arpa/inet.h>
#include <cstdarg>
#include <cerrno>

Model M;
static Tags ct = 0; static std::string cwhy;
void setOp(Tags t, const std::string &why);
Ctx::Ctx(Tags t, const std::string &why) : old(ct), oldWhy(cwhy) { ct |= t; cwhy = oldWhy.empty() ? why : oldWhy + "/" + why; setOp(ct, cwhy); }
Ctx::~Ctx() { ct = old; cwhy = oldWhy; /* op stays set for late frames */ }
void addTags(Tags t) { ct |= t; setOp(ct, cwhy); }

// ---------------------------------------------------------------- text
std::string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string trunc(const std::string &s, size_t n) { return s.substr(0, n); }
std::string up(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
std::string lo(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
std::string cstr(const std::string &s) { return s.substr(0, s.find('\0')); }
static std::string charset(std::string s, const char *ok) {
    for (auto &c : s) { if (isalnum((unsigned char)c) && (unsigned char)c < 128) continue; if (c && strchr(ok, c)) continue; c = c == ' ' ? '_' : '?'; }
    return s;
}
std::string filterNick(std::string s) { return charset(s, "-.!'$+,/?_@"); }
std::string filterGroup(std::string s) { return charset(s, "-.!'$+,/?_~"); }
// Text leaving the server: valid UTF-8 passes, control characters vanish, each undecodable byte sequence becomes '?', at
// most len-1 bytes of the source are used and a character cut by that limit vanishes.
std::string filterText(const std::string &in, size_t len) {
    std::string s = cstr(in), o; size_t lim = std::min(s.size(), len - 1), i = 0;
    while (i < lim) {
        unsigned char b = (unsigned char)s[i];
        int need; unsigned lo1 = 0x80, hi1 = 0xBF;
        if (b < 0x80) { if (b >= 0x20) o += (char)b; i++; continue; }
        if (b >= 0xC2 && b <= 0xDF) need = 1;
        else if (b >= 0xE0 && b <= 0xEF) { need = 2; if (b == 0xE0) lo1 = 0xA0; if (b == 0xED) hi1 = 0x9F; }
        else if (b >= 0xF0 && b <= 0xF4) { need = 3; if (b == 0xF0) lo1 = 0x90; if (b == 0xF4) hi1 = 0x8F; }
        else { o += '?'; i++; continue; }
        size_t k = 1; bool bad = false, cut = false;
        for (; (int)k <= need; k++) {
            if (i + k >= lim) { cut = true; break; }
            unsigned char x = (unsigned char)s[i + k];
            unsigned l = k == 1 ? lo1 : 0x80, h = k == 1 ? hi1 : 0xBF;
            if (x < l || x > h) { bad = true; break; }
        }
        if (cut) break;
        if (bad) { o += '?'; i += k; continue; }
        o.append(s, i, need + 1); i += need + 1;
    }
    return o;
}
std::string word(const std::string &s) { size_t i = 0; while (i < s.size() && s[i] != ' ' && s[i] != '\t' && i < 63) i++; return s.substr(0, i); }
std::string tail(const std::string &s) {
    size_t i = 0; while (i < s.size() && s[i] != ' ' && s[i] != '\t') i++;
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++;
    return s.substr(i);
}
std::vector<std::string> splitFields(const std::string &in) {
    std::string s = cstr(in); std::vector<std::string> f; size_t p = 0;
    for (;;) {
        size_t q = s.find('\1', p);
        if (q == std::string::npos || f.size() + 1 >= 20) { f.push_back(s.substr(p)); return f; }
        f.push_back(s.substr(p, q - p)); p = q + 1;
    }
}
static int wm(const char *t, const char *p) {   // 1 match, 0 no match, -1 cannot match
    for (; *p; t++, p++) {
        if (!*t && *p != '*') return -1;
        if (*p == '\\') { p++; if (*t != *p) return 0; continue; }
        if (*p == '?') continue;
        if (*p == '*') {
            while (*p == '*') p++;
            if (!*p) return 1;
            for (; *t; t++) { int m = wm(t, p); if (m) return m; }
            return -1;
        }
        if (*p == '[') {
            bool rev = p[1] == '^'; if (rev) p++;
            bool ok = false;
            if (p[1] == ']' || p[1] == '-') { p++; if (*p == *t) ok = true; }
            int last = (signed char)*p;
            for (p++; *p && *p != ']'; last = (signed char)*p, p++) {
                if (*p == '-' && p[1] != ']') { p++; if (!*p) return -1; if ((signed char)*t <= (signed char)*p && (signed char)*t >= last) ok = true; }
                else if (*p == *t) ok = true;
            }
            if (!*p) return -1;
            if (ok == rev) return 0;
            continue;
        }
        if (*t != *p) return 0;
    }
    return !*t;
}
bool wild(const std::string &t, const std::string &p) { return p == "*" || wm(t.c_str(), p.c_str()) == 1; }
bool NL::match(const std::string &s) const { for (auto &x : v) if (wild(s, x)) return true; return false; }

// ---------------------------------------------------------------- tables
std::string addrOf(const User &u) { return u.loginid + "@" + u.nodeid; }
int findUser(const std::string &n) { if (n.empty()) return -1; for (int i = 0; i < MAXU; i++) if (ieq(M.u[i].nick, n)) return i; return -1; }
int findGroup(const std::string &n) { if (n.empty()) return -1; for (int i = 0; i < MAXG; i++) if (ieq(M.g[i].name, n)) return i; return -1; }
int countIn(const std::string &g) { if (g.empty()) return 0; int c = 0; for (auto &x : M.u) if (ieq(x.group, g)) c++; return c; }
int checkMods(int n) { for (int i = 0; i < MAXG; i++) if (M.g[i].mod == n) return i; return -1; }
void clearUser(int n) {
    User &x = M.u[n];
    if (x.login > L_FALSE) nickWriteTime(n, true);
    int rc = x.recvCount;
    x = User(); x.recvCount = rc;
    x.priN.max = x.pubN.max = x.priS.max = x.pubS.max = 32; x.nN.max = x.sN.max = 40;
    for (auto &y : M.u) { if (y.lpriv == n) y.lpriv = -1; if (y.pong == n) y.pong = -1; if (y.lastaway == n) y.lastaway = 0; }
}
void clearGroup(int g) { M.g[g] = Group(); }
int newestMember(const std::string &g, bool notAway) {
    int best = -1;
    for (int i = 0; i < MAXU; i++) {
        User &x = M.u[i];
        if (x.login < L_COMPLETE || !ieq(x.group, g) || (notAway && !x.away.empty())) continue;
        if (best < 0 || x.t_recv > M.u[best].t_recv) best = i;
    }
    return best;
}

// ---------------------------------------------------------------- sending
void mRaw(int to, const std::string &p) {
    if (to < 0 || to >= MAXREAL) return;
    if (M.u[to].kill > 0) return;
    expectFrame(to, p, ct, cwhy);
}
void mError(int to, const std::string &s) { mRaw(to, "e" + filterText(s, 254)); }
void mStatus(int to, const std::string &cat, const std::string &s) { mRaw(to, "d" + filterText(cat, 21) + "\1" + filterText(s, 233)); }
void mImport(int to, const std::string &cat, const std::string &s) { mRaw(to, "f" + filterText(cat, 21) + "\1" + filterText(s, 233)); }
void mOut(int to, const std::string &s) { mRaw(to, "ico\1" + filterText(s, 251)); }
void mEnd(int to) { mRaw(to, "iec\1\1"); }
void mExit(int to) { mRaw(to, "g"); }
void mStored(int to, const std::string &from, const std::string &s) { mRaw(to, "c" + filterText(from, 13) + "\1" + filterText(s, 241)); }
void mOpen(int from, int to, const std::string &s) { mRaw(to, "b" + filterText(M.u[from].nick, 13) + "\1" + filterText(s, 241)); }
bool mPerson(int from, int to, const std::string &s) {
    User &t = M.u[to];
    if (t.priS.match(up(addrOf(M.u[from]))) || t.priN.match(up(M.u[from].nick))) {
        stat(P_HUSHED);
        mStatus(from, "Bounce", "Message did not go through"); return false;
    }
    t.lpriv = from;
    std::string text = filterText(s, 241);
    if (to >= MAXREAL) {                       // a message to the server is a command to it
        if (from < MAXREAL) { Ctx c(0, "to server"); command(from, trunc(word(text) + "\1" + tail(text), 251)); }
        return true;
    }
    mRaw(to, "c" + filterText(M.u[from].nick, 13) + "\1" + text);
    return true;
}
void mBeep(int from, int to) {
    User &t = M.u[to];
    if (t.nobeep) {
        mError(from, "User has nobeep enabled.");
        if (t.nobeep == 2) mStatus(to, "No-Beep", M.u[from].nick + " attempted (and failed) to beep you");
        return;
    }
    if (to >= MAXREAL) { mPerson(NS, from, "Beep yerself!"); M.u[NS].t_recv = W.now(); return; }
    mRaw(to, "k" + M.u[from].nick);
}

// ---------------------------------------------------------------- login
static std::vector<std::string> toks(const std::string &s, const char *sep) {
    std::vector<std::string> r; size_t p = 0;
    for (;;) { p = s.find_first_not_of(sep, p); if (p == std::string::npos) return r; size_t q = s.find_first_of(sep, p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q; }
}
static long permOf(const std::string &login, const std::string &host, const std::string &addr) {
    std::string *c = W.disk.content("icbd.perms");
    if (!c) return 0;
    for (auto &line : toks(*c, "\n")) {
        if (line[0] == '#' || line[0] == '\t') continue;
        auto t = toks(line, " \t");
        if (t.size() < 4) continue;
        bool hit = false;
        if (ieq(t[0], "user")) hit = ieq(t[1], login) && ieq(t[2], host);
        else if (ieq(t[0], "mask")) { in_addr a, m, x; if (inet_pton(AF_INET, addr.compare(0, 7, "::ffff:") == 0 ? addr.c_str() + 7 : addr.c_str(), &x) == 1 && inet_pton(AF_INET, t[1].c_str(), &a) == 1 && inet_pton(AF_INET, t[2].c_str(), &m) == 1) hit = (x.s_addr & m.s_addr) == a.s_addr; }
        if (!hit) continue;
        long p = 0;
        for (auto &w : toks(t[3], "|")) { if (ieq(w, "perm_deny")) p |= PERM_DENY; else if (ieq(w, "perm_slowmsgs")) p |= PERM_SLOW; }
        return p;
    }
    return 0;
}
static bool denied(const std::string &who, std::string &reason) {
    std::string *c = W.disk.content("icbd.deny");
    if (!c) return false;
    std::string w;
    for (size_t i = 0; i < c->size(); i++) {
        char ch = (*c)[i];
        if (!isspace((unsigned char)ch)) { if (w.size() < 254) w += ch; continue; }
        if (wild(who, up(w))) { size_t e = c->find('\n', i + 1); reason = c->substr(i + 1, e == std::string::npos ? e : e - i - 1); if (i + 1 > c->size()) reason = ""; reason = trunc(reason, 254); return true; }
        w.clear();
    }
    return false;
}

// returns 0 logged in, 1 nothing happened, -1 refused
static int login(int n, const std::string &pkt) {
    User &x = M.u[n];
    if (x.login > L_FALSE) { mError(n, "Already logged in."); return 1; }
    F f = splitFields(pkt);
    if (f.size() < 4) return -1;
    std::string grp = f[2].empty() ? "1" : trunc(f[2], 15);
    if (ieq(f[3], "w")) { Ctx c(T(9, 12), "who at login"); cWho(n, 2, ""); return -1; }
    if (ieq(f[3], "wg")) { Ctx c(T(9, 12), "who at login"); cWho(n, 2, f[2]); return -1; }
    if (!ieq(f[3], "login")) { mError(n, "Unknown login type \"" + f[3] + "\""); return -1; }
    std::string nick = filterNick(f[1]);
    if (findUser(nick) >= 0) { addTags(T(8)); mError(n, "Nickname already in use."); return -1; }
    if (nick.empty() || nick.size() > 12) { mError(n, "Nickname must be between 1 and 12 characters."); return -1; }
    if (f[0].empty() || f[0].size() > 12) { mError(n, "Login id must be between 1 and 12 characters."); return -1; }
    for (unsigned char ch : f[0]) if (ch >= 128 || !isalnum(ch)) { mError(n, "Login id must contain only alphanumeric characters."); return -1; }
    Conn *c = W.byFd(n);
    addTags(T(22, 23));
    if (c && c->peernameErr > 0) { mError(n, std::string("getpeername() failed: ") + strerror(ENOTCONN)); return -1; }
    long perms = permOf(f[0], x.nodeid, c ? c->addr : "");
    if (perms & PERM_DENY) { stat(P_DENY); mError(n, "Login denied."); return -1; }
    if (perms) mStatus(n, "Permissions", perms & PERM_SLOW ? "slowmsgs" : "");
    std::string one = up(f[0] + "@" + x.nodeid), reason;
    if (denied(one, reason)) { stat(P_DENY); mError(n, "Login refused for " + one); mError(n, "Reason: " + reason); return -1; }
    x.loginid = trunc(f[0], 12); x.nick = nick; x.password = f.size() > 4 ? trunc(f[4], 12) : ""; x.group = ""; x.away = ""; x.echoback = 0; x.nobeep = 0; x.perms = perms; x.recvCount = 0;
    if (ieq(nick, "admin")) {
        Ctx cc(T(13, 14), "admin login");
        if (!checkAuth(n)) { mError(n, "Nickname already in use."); return -1; }
    }
    mRaw(n, "a");
    { Ctx cc(T(25), "message of the day at login"); cMotd(n); }
    if (grp[0] == '@') {
        Ctx cc(T(11, 12), "login to a user's group");
        int t = findUser(grp.substr(1)), gi = t < 0 ? -1 : findGroup(M.u[t].group);
        if (gi < 0 || (M.g[gi].vis != VISIBLE && nick != "ADMIN")) { mError(n, "User not found or is in a secret or invisible group."); return -1; }
        grp = M.u[t].group;
    }
    time_t now = W.now();
    x.login = L_PENDING; x.t_on = x.t_recv = x.t_sent = now;
    for (NL *l : {&x.priN, &x.pubN, &x.priS, &x.pubS, &x.nN, &x.sN}) l->clear();
    mOut(n, "Welcome to ICB " + nick);
    int ret = nickLookup(n, nick, true);
    if (ret == -2) {
        Ctx cc(T(14, 10), "known nickname");
        if (!x.password.empty() && nickWrite(n, x.password, true) == 0) ret = 0;
        if (ret != 0) {
            mStatus(n, "Register", "Send password to authenticate your nickname.");
            missingModNotice(n);
        }
    }
    if (ret == 0) {
        Ctx cc(T(14, 10, 16), "registered login");
        if (x.realname != "registered") {
            x.realname = "registered";
            mStatus(n, "Register", "Nick registered");
            nickWriteTime(n, false);
            regainMods(n);
            mailNotice(n);
        }
    } else if (ret != -2) {
        mStatus(n, "No-Pass", "Your nickname does not have a password.");
        mStatus(n, "No-Pass", "For help type /m server ?");
    }
    one = up(addrOf(x));
    bool reg = !x.realname.empty();
    { Ctx cc(T(11), "invitations at login");
      for (auto &g : M.g) if (g.nInv.present(nick) || g.sInv.match(one) || (g.nrInv.present(nick) && reg) || (g.srInv.match(one) && reg)) mOut(n, "Invited to: " + g.name); }
    if (x.realname != "registered") for (int i = 0; i < MAXG; i++) talkReport(n, i);
    { Ctx cc(T(9, 11), "first group"); if (cChange(n, 3, grp) < 0) return -1; }
    x.login = L_COMPLETE;
    M.st.signons++;
    if (x.secure) stat(P_TLSLOGIN);
    Ctx cc(T(21, 12), "sign-on notification");
    for (int j = 0; j < MAXU; j++) {
        if (j == n || M.u[j].login < L_COMPLETE) continue;
        if (!M.u[j].nN.match(up(nick)) && !M.u[j].sN.match(one)) continue;
        int gi = findGroup(x.group);
        if (gi >= 0 && M.g[gi].vis == SUPERSECRET) { stat(P_SECRETHID); continue; }
        stat(P_NOTIFY);
        mStatus(j, "Notify-On", nick + " (" + one + ") has just signed on");
    }
    return 0;
}

// ---------------------------------------------------------------- open messages
static void openMsg(int n, const std::string &pkt) {
    User &x = M.u[n];
    if (x.login < L_COMPLETE) { Ctx c(T(18), "open message before login"); return; }
    Ctx c(T(6), "open message");
    if (!x.away.empty()) { Ctx cc(T(21), "away reminder"); mStatus(n, "Away", "Your away is still set..."); }
    time_t now = W.now();
    if (x.group == "1") {
        x.recvCount++;
        if (x.t_recv == now) {
            if (x.recvCount > 2) {
                Ctx cc(T(22, 9), "spam boot"); addTags(T(22)); stat(P_SPAMBOOT);
                mStatus(n, "Boot", "No spamming in group 1.");
                statusGroup(1, 1, n, "Boot", x.nick + " was auto-booted for spamming.");
                M.isBooting = 1; cChange(n, 2, "ICB"); M.isBooting = 0;
            }
        } else x.recvCount = 0;
        addTags(T(22));
    }
    x.t_recv = now;
    F f = splitFields(pkt);
    if (f.size() != 1) return;
    int gi = findGroup(x.group);
    if (gi < 0) return;
    Group &g = M.g[gi];
    if (g.vol == QUIET) { mError(n, "Open messages not permitted in quiet groups."); return; }
    if (g.control == CONTROLLED && g.mod != n && !g.nTalk.present(x.nick) && (x.realname.empty() || !g.nrTalk.present(x.nick))) {
        addTags(T(10));
        mError(n, "You do not have permission to send open messages in this group.");
        if (g.mod >= 0) mStatus(n, "INFO", "Use \"/m " + M.u[g.mod].nick + " may i talk?\" to request permission.");
        return;
    }
    if (g.control == CONTROLLED) addTags(T(10));
    if (countIn(g.name) < 2) { mError(n, "No one else in group!"); return; }
    stat(P_OPEN);
    sendGroup(n, f[0]);
}

// ---------------------------------------------------------------- commands
static const char *autoTable[] = {"read", "whois", "p", "rname", "write", "text", "addr", "phone", "delete", "info", "help", "?", "cp", "email", "secure", "nosecure", "www", nullptr};
void command(int n, const std::string &pkt) {
    User &x = M.u[n];
    if (x.login < L_COMPLETE) { Ctx c(T(18), "command before login"); return; }
    x.t_recv = W.now();
    F f = splitFields(pkt);
    std::string k = lo(f[0]);
    int argc = (int)f.size();
    F g = f; if (g.size() < 2) { g.push_back(""); }
    struct N { F f; int argc; };
    auto run = [&](Tags t, std::function<void()> fn) { Ctx c(t, "/" + k); fn(); };
    // commands receive the true field list; a missing argument reads as empty
    F &a = f;
    if (k == "drop") run(T(13, 14), [&] { cDrop(n, a); });
    else if (k == "restart") run(T(13, 24), [&] { cRestart(n, a); });
    else if (k == "shutdown") run(T(13, 20), [&] { cShutdown(n, a); });
    else if (k == "wall") run(T(13), [&] { cWall(n, a); });
    else if (k == "log") run(T(13), [&] { cLog(n, a); });
    else if (k == "beep") run(T(7), [&] { cBeep(n, a); });
    else if (k == "m") run(T(7), [&] { cPersonal(n, a); });
    else if (k == "cancel") run(T(11, 10), [&] { cCancel(n, a); });
    else if (k == "invite") run(T(11, 10), [&] { cInvite(n, a); });
    else if (k == "g") run(T(9, 11, 12, 10), [&] { cChange(n, argc, g[1]); });
    else if (k == "pass") run(T(10), [&] { cPass(n, a); });
    else if (k == "boot") run(T(10, 9), [&] { cBoot(n, a); });
    else if (k == "status") run(T(10, 9, 11, 12) | T(19), [&] { cStatus(n, a); });
    else if (k == "topic") run(T(10, 9), [&] { cTopic(n, a); });
    else if (k == "talk") run(T(10, 6), [&] { cTalk(n, a); });
    else if (k == "exclude") run(T(6, 10, 21), [&] { cExclude(n, a); });
    else if (k == "w") run(T(9, 12, 23), [&] { cWho(n, argc, g[1]); });
    else if (k == "whereis") run(T(12, 23, 7) | T(25), [&] { cInfo(n, a); });
    else if (k == "name") run(T(8, 14, 10), [&] { cName(n, a); });
    else if (k == "hush" || k == "shush") run(T(21), [&] { cHush(n, a); });
    else if (k == "notify") run(T(21), [&] { cNotify(n, a); });
    else if (k == "echoback") run(T(21, 6), [&] { cEcho(n, a); });
    else if (k == "nobeep") run(T(21, 7), [&] { cNobeep(n, a); });
    else if (k == "away") run(T(21), [&] { cAway(n, a); });
    else if (k == "noaway") run(T(21), [&] { cNoaway(n, a); });
    else if (k == "ping") run(T(7, 25), [&] { cPing(n, a); });
    else if (k == "motd") run(T(18, 25), [&] { cMotd(n); });
    else if (k == "news") run(T(4, 25), [&] { cNews(n, a); });
    else if (k == "v") run(T(4, 25), [&] { cVersion(n, a); });
    else if (k == "s_help") run(T(4, 25), [&] { cHelp(n); });
    else if (k == "shuttime") run(T(20, 25), [&] { cShuttime(n, a); });
    else if (k == "stats") run(T(20, 19, 13) | T(25), [&] { cStats(n, a); });
    else {
        for (auto p = autoTable; *p; p++) if (k == *p) { Ctx c(T(14, 16, 15), "/" + k); cAuto(n, a); return; }
        Ctx c(T(4), "unknown command"); mStatus(n, "Server", "Unknown command");
    }
}

static void pong(int n) {
    User &x = M.u[n];
    if (x.login < L_COMPLETE) return;
    Ctx c(T(7, 25), "pong");
    if (x.pong != -1) {
        int64_t d = (int64_t)W.usNow - (int64_t)x.pingUs; long s = (long)(d / 1000000), us = (long)(d % 1000000);
        if (us < 0) { us += 1000000; s--; }
        mStatus(x.pong, "PONG", fmt("%s client responded in %ld.%02ld seconds.", x.nick.c_str(), s, us / 10000));
        x.pong = -1;
    } else mStatus(n, "PONG", "You were pinged, but they aren't there to receive your pong.");
}

// ---------------------------------------------------------------- callbacks
static void wantKill(int fd, const std::string &why, Tags t) {
    Conn *c = W.byFd(fd);
    if (c && !c->kill) { c->kill = true; c->killWhy = why; c->killTags = t | T(5); }
}

static std::string hostOf(const Conn &c) {
    std::string num = "[" + c.addr + "]";
    if (c.rev.empty() || c.rev == "-") return num;
    std::string f = "," + c.fwd + ",";
    return f.find("," + c.addr + ",") != std::string::npos ? c.rev : num;
}

void modelNewClient(int fd, int secure) {
    ct = 0; cwhy = "";
    Ctx c(T(18, 23, 5), "new connection");
    if (fd >= MAXREAL || fd < 0) { stat(P_FULL); wantKill(fd, "no user slot for this descriptor", T(18)); return; }
    Conn *k = W.byFd(fd);
    if (k && k->slotUse) stat(P_SLOTREUSE);
    mRaw(fd, fmt("j%d\1%s\1%s", PROTO_LEVEL, W.hostName.c_str(), VERSION));
    if (k && k->peernameErr > 0) return;
    M.u[fd].nodeid = trunc(hostOf(*k), 64);
    M.u[fd].secure = secure;
}

void modelDispatch(int fd, const std::string &raw) {
    ct = 0; cwhy = "";
    std::string p = cstr(raw);
    if (fd < 0 || fd >= MAXU) return;
    Conn *c = W.byFd(fd);
    setOp(0, "packet " + esc(p).substr(0, 120));
    if (fd >= MAXREAL) return;
    if (M.u[fd].kill > 0) { setOp(T(5, 18), "packet of a connection marked for removal"); return; }
    if (c && c->kill) return;
    Tags base = M.u[fd].login >= L_COMPLETE ? 0 : T(18);
    char ty = p.empty() ? '\0' : p[0];
    switch (ty) {
        case 'a': {
            Ctx x(T(18, 8, 14), "login");
            int r = login(fd, p.substr(1));
            if (r < 0) { stat(P_LOGINFAIL); mExit(fd); lostUser(fd); M.u[fd].kill++; }
            else if (r == 0) stat(P_LOGIN);
            break; }
        case 'b': { Ctx x(base, "open"); openMsg(fd, p.substr(1)); break; }
        case 'h': { Ctx x(base, "command"); command(fd, p.substr(1)); break; }
        case 'm': { Ctx x(base, "pong packet"); pong(fd); break; }
        case 'n': break;
        case 'c': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_PERSONAL packets"); break; }
        case 'd': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_STATUS packets"); break; }
        case 'e': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_ERROR packets"); break; }
        case 'f': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_IMPORTANT packets"); break; }
        case 'g': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_EXIT packets"); break; }
        case 'i': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_CMDOUT packets"); break; }
        case 'j': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_PROTO packets"); break; }
        case 'k': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_BEEP packets"); break; }
        case 'l': { Ctx x(T(4, 18), "unexpected packet type"); mError(fd, "Server doesn't handle ICB_M_PING packets"); break; }
        default: {
            Ctx x(T(4, 18), "invalid packet"); stat(P_GARBAGE);
            std::string t = fmt("%d: Invalid packet type \"", fd);
            if (ty) { t += ty; t += "\" (" + p + ")"; }      // a NUL type ends the text right there
            mError(fd, t);
        }
    }
}

int lostUser(int n) {
    if (n < 0 || n >= MAXREAL) return 0;
    User &x = M.u[n];
    if (x.login == L_FALSE) { clearUser(n); return 0; }
    Ctx c(T(17, 9, 5), "departure");
    bool reg = !x.realname.empty(); int killed = x.kill;
    std::string grp = x.group, nick = x.nick, fid = nick + " (" + addrOf(x) + ")", one = up(addrOf(x));
    if (x.login >= L_COMPLETE) {
        Ctx cc(T(21, 12), "sign-off notification");
        int gi = findGroup(grp);
        for (int j = 0; j < MAXU; j++) {
            if (j == n || M.u[j].login == L_FALSE) continue;
            if (!M.u[j].nN.match(up(nick)) && !M.u[j].sN.match(one)) continue;
            if (gi < 0 || M.g[gi].vis == SUPERSECRET) { stat(P_SECRETHID); continue; }
            stat(P_NOTIFY);
            mStatus(j, "Notify-Off", nick + " (" + one + ") has just signed off");
        }
    }
    clearUser(n);
    int gi = findGroup(grp);
    if (gi >= 0) {
        if (countIn(grp) > 0) {
            if (M.g[gi].vol != QUIET) statusGroup(2, 0, gi, "Sign-off", fid + (killed > 0 ? " has been disconnected." : " has signed off."));
        } else clearGroup(gi);
    }
    int m;
    while ((m = checkMods(n)) != -1) {
        Ctx cc(T(10), "moderator left");
        Group &g = M.g[m];
        if (countIn(g.name) == 0) { g.mod = -1; continue; }
        if (!reg) {
            stat(P_MODLOST);
            if (g.vol != QUIET) statusGroup(2, 0, m, "Sign-off", "Your group moderator signed off. (No timeout)");
            g.mod = newestMember(g.name, false);
            if (g.mod >= 0) statusGroup(2, 0, m, "Pass", M.u[g.mod].nick + " is now mod.");
        } else {
            stat(P_MODTIMEOUT);
            statusGroup(2, 0, m, "Mod", "Your group moderator signed off. (300 second timeout)");
            g.mod = -1; g.missing = nick; g.timeout = W.now() + 300;
        }
    }
    return 0;
}
void modelLost(int fd) { ct = 0; cwhy = ""; setOp(T(17, 5), "loss of a connection"); lostUser(fd); }

void modelIdle() {
    ct = 0; cwhy = "";
    setOp(T(19, 20, 10), "idle processing");
    long now = W.now();
    if (M.die > 0 && now >= M.die) { W.expectExit = true; setOp(T(20), "scheduled shutdown"); stat(P_SHUT); return; }
    auto warn = [&](const char *t) { Ctx c(T(20), "shutdown warning"); stat(P_SHUTWARN); for (int i = 0; i < MAXREAL; i++) if (M.u[i].login > L_FALSE) mImport(i, "Shutdown", t); };
    if (M.die > 0 && now >= M.die - 300 && M.shutNotify == 0) { warn("Server shutting down in 5 minutes!"); M.shutNotify++; }
    if (M.die > 0 && now >= M.die - 60 && M.shutNotify == 1) { warn("Server shutting down in 1 minute!"); M.shutNotify++; }
    for (int i = 0; i < MAXREAL; i++) if (M.u[i].kill > 0) {
        if (M.u[i].login > L_FALSE) M.st.drops++;
        wantKill(i, "the server decided to disconnect it", T(18, 13, 5));
    }
    for (int i = 0; i < MAXG; i++) {
        Group &g = M.g[i];
        if (g.control != PUBLIC && g.mod >= 0) {
            int mod = g.mod; long idle = now - M.u[mod].t_recv;
            if (idle > g.idlemod) {
                bool other = false;
                for (int k = 0; k < MAXREAL; k++) if (k != mod && M.u[k].login >= L_COMPLETE && M.u[k].away.empty() && findGroup(M.u[k].group) == i && now - M.u[k].t_recv < idle) other = true;
                if (other) {
                    Ctx c(T(19, 10), "idle moderator"); stat(P_IDLEMOD);
                    auto msg = [&](const std::string &w) { return "A piano suddenly falls on " + w + ", dislodging moderatorship of " + g.name + "."; };
                    mStatus(mod, "Idle-Mod", msg("you"));
                    if (g.vol != QUIET) { if (findGroup(M.u[mod].group) == i) statusGroup(1, 0, mod, "Idle-Mod", msg(M.u[mod].nick)); else statusGroup(2, 0, i, "Idle-Mod", msg(M.u[mod].nick)); }
                    g.timeout = 1; M.st.idlemods++;
                }
            }
        }
        if (g.timeout > 0 && g.timeout < now) {
            Ctx c(T(10, 19, 17), "moderator timeout");
            int nm = newestMember(g.name, true);
            if (nm >= 0) { stat(P_MODPASS); g.mod = nm; g.timeout = 0; g.missing = ""; statusGroup(2, 0, i, "Timeout", M.u[nm].nick + " is now mod."); }
        }
    }
    for (int i = 0; i < MAXREAL; i++) {
        User &x = M.u[i];
        if (x.login < L_COMPLETE) continue;
        int gi = findGroup(x.group); if (gi < 0) continue;
        Group &g = M.g[gi];
        if (ieq(x.group, "~IDLE~") || g.idleboot <= 0 || now - x.t_recv <= g.idleboot) continue;
        Ctx c(T(19, 9), "idle boot"); stat(P_IDLEBOOT);
        std::string tpl = g.idlemsg.empty() ? "A swarm of bats swoops down and carries %s away." : g.idlemsg;
        auto msg = [&](const std::string &w) { std::string o; for (size_t k = 0; k < tpl.size(); k++) { if (tpl[k] == '%' && k + 1 < tpl.size() && tpl[k + 1] == 's') { o += w; k++; } else if (tpl[k] == '%' && k + 1 < tpl.size() && tpl[k + 1] == '%') { o += '%'; k++; } else o += tpl[k]; } return o; };
        mStatus(i, "Idle-Boot", msg("you"));
        if (g.vol != QUIET) statusGroup(1, 0, i, "Idle-Boot", msg(x.nick));
        for (int j = 0; j < MAXG; j++) if (M.g[j].mod == i) {
            Ctx cc(T(10), "idle boot of a moderator");
            int nm = newestMember(M.g[j].name, false);
            M.g[j].mod = nm;
            if (nm >= 0) { if (M.g[j].name == x.group) statusGroup(1, 0, i, "Pass", M.u[nm].nick + " is now mod."); else statusGroup(2, 0, j, "Pass", M.u[nm].nick + " is now mod."); }
        }
        M.isBooting = 1; cChange(i, 2, "~IDLE~"); M.isBooting = 0;
        M.st.idleboots++;
    }
}

int modelOk2read(int fd) {
    if (fd < 0 || fd >= MAXREAL) return 1;
    User &x = M.u[fd];
    if (!(x.perms & PERM_SLOW)) return 1;
    return W.now() - x.t_recv < 1 ? 0 : 1;
}

// ---------------------------------------------------------------- administration
void cLog(int n, const F &f) {
    if (f.size() < 2) { mOut(n, "wrong number of parz"); return; }
    if (!checkAuth(n)) { mError(n, "You are not authorized to do this."); return; }
    if (!f[1].empty()) { int l = atoi(word(f[1]).c_str()); M.logLevel = l < 0 ? 0 : l; }
    mOut(n, fmt("The log level is %d", M.logLevel));
}
void cDrop(int n, const F &f) {
    if (f.size() != 2) return;
    int v = findUser(word(f[1]));
    if (v < 0 || v >= MAXREAL) { mError(n, "User not found."); return; }
    if (checkAuth(n)) { stat(P_DROP); wantKill(v, "dropped by the administrator", T(13)); return; }
    if (valUser(M.u[v].nick, word(tail(f[1]))) == 0) {
        stat(P_DROP);
        mStatus(v, "Drop", "You have been disconnected by " + M.u[n].nick);
        M.u[v].kill++;
    } else mError(n, "Authentication failure.");
}
void cShutdown(int n, const F &f) {
    if (!checkAuth(n)) { mError(n, "You are not authorized to do this."); return; }
    if (f.size() != 2) return;
    long m = atol(f[1].c_str());
    for (int i = 0; i < MAXREAL; i++) if (M.u[i].login > L_FALSE) mImport(i, "Shutdown", fmt("Server going down in %ld minute(s)!", m));
    M.die = (long)(W.now() + 60.0 * m);
    M.shutNotify = m < 5 ? 1 : 0;
}
static bool g_quiet; static int g_restartBy;
static void restartNotice(const char *t) {
    Ctx c(T(24, 13), "restart");
    if (g_quiet) mImport(g_restartBy, "Quiet-Restart", t);
    else for (int i = 0; i < MAXREAL; i++) if (M.u[i].login > L_FALSE) mImport(i, "Restart", t);
}
void cRestart(int n, const F &f) {
    if (!checkAuth(n)) { mError(n, "You are not authorized to do this."); return; }
    g_quiet = f.size() == 2 && ieq(f[1], "quiet"); g_restartBy = n;
    W.restartPending = W.restartSeen = true;
    restartNotice("Server restarting...please be patient.");
}
void modelRestartFailed() { stat(P_HANDFAILED); restartNotice("Restart not done."); }
void restartDone() {
    Ctx c(T(24), "end of a restart");
    for (int i = 0; i < MAXREAL; i++) if (M.u[i].login > L_FALSE) {
        if (!g_quiet) mImport(i, "Restart", "Server is back up.");
        else if (ieq(M.u[i].nick, "admin")) mImport(i, "Quiet-Restart", "Server is back up.");
    }
}
void cWall(int n, const F &f) {
    if (!checkAuth(n)) { mError(n, "You are not authorized to do this."); return; }
    if (f.size() != 2) return;
    stat(P_WALL);
    for (int i = 0; i < MAXREAL; i++) if (M.u[i].login > L_FALSE) mImport(i, "WALL", f[1]);
}

// Reference model, part 3: user commands, registration, mailbox, database and its durability oracle, life cycle.
#include "model.h"
#include "version.h"
#include <ctime>

static std::string clockStr() {
    time_t t = W.now(); struct tm m; gmtime_r(&t, &m);
    int h = m.tm_hour > 12 ? m.tm_hour - 12 : m.tm_hour == 0 ? 12 : m.tm_hour;
    return fmt("%d:%02d%s", h, m.tm_min, m.tm_hour > 11 ? "pm" : "am");
}

// ---------------------------------------------------------------- private messages
static void awayHandle(int src, int dest) {
    User &d = M.u[dest];
    if (d.away.empty()) return;
    Ctx c(T(21), "away reply");
    if (d.lastaway == src && W.now() - d.lastawaytime <= 10) return;
    stat(P_AWAY);
    d.lastaway = src; d.lastawaytime = W.now();
    mStatus(src, "Away", d.away);
    if (d.echoback == 2) mOut(dest, trunc("<*to: " + M.u[src].nick + "*> [=@" + clockStr() + "=] " + d.away, 253));
}
void cPersonal(int n, const F &f) {
    if (f.size() != 2) return;
    std::string w = word(f[1]);
    int d = findUser(w);
    if (d < 0) { mError(n, w + " not signed on."); return; }
    if (!M.u[n].away.empty() && d != NS) mStatus(n, "Away", "Your away is still set...");
    stat(P_PRIV);
    std::string t = tail(f[1]);
    mPerson(n, d, t);
    if (M.u[n].echoback == 2) mOut(n, trunc("<*to: " + M.u[d].nick + "*> " + t, 253));
    awayHandle(n, d);
}
void cBeep(int n, const F &f) {
    if (f.size() != 2) return;
    std::string w = word(f[1]);
    if (w.empty()) return;
    int d = findUser(w);
    if (d < 0) { mError(n, w + " not signed on."); return; }
    stat(P_BEEP);
    mBeep(n, d);
    if (M.u[n].echoback == 2) mOut(n, "<*to: " + M.u[d].nick + "*> [=Beep=]");
    awayHandle(n, d);
}

// ---------------------------------------------------------------- information
void cInfo(int n, const F &f) {
    if (f.size() != 2) return;
    std::string w = trunc(word(f[1]), 19);
    int d = w.empty() ? M.u[n].lpriv : findUser(w);
    if (d < 0) { mOut(n, "Nickname not found."); return; }
    User &x = M.u[d];
    int idle = (int)(W.now() - x.t_recv);
    Conn *c = d < MAXREAL ? W.byFd(d) : nullptr;
    std::string addr = !c || c->peernameErr > 0 ? "(unknown)" : c->addr;
    int v = idle < 60 ? idle : idle < 3600 ? idle / 60 : idle < 86400 ? idle / 3600 : idle / 86400;
    const char *unit = idle < 60 ? "s" : idle < 3600 ? "m" : idle < 86400 ? "h" : "d";
    mOut(n, fmt("%-14s %s@%s (%s) %d%s%s", x.nick.c_str(), x.loginid.c_str(), x.nodeid.c_str(), addr.c_str(), v, unit, x.away.empty() ? "" : " (aw)"));
}
// what a reader of a text file gets: nothing if it cannot be opened, the part before a bad spot if there is one
static std::string *textFile(const std::string &name) {
    static std::string part;
    std::string *c = W.disk.content(name);
    auto b = W.fileBad.find(name);
    if (!c || b == W.fileBad.end()) return c;
    if (b->second.kind == 1) return nullptr;
    part = c->substr(0, (size_t)b->second.at);
    return &part;
}
static void showFile(int n, const std::string &c, size_t max) {
    std::string line;
    for (char ch : c) { if (ch == '\n') { mOut(n, line); line.clear(); } else if (line.size() < max) line += ch; }
}
void cMotd(int n) {
    std::string *c = textFile("motd");
    if (!c) { mError(n, "No MOTD file found."); return; }
    std::string line;
    for (size_t i = 0; i < c->size(); i++) {
        char ch = (*c)[i];
        if (ch == '%') {
            if (++i >= c->size()) break;
            ch = (*c)[i];
            if (ch == 'U') { auto k = M.db.find("server.signon"); if (k != M.db.end()) line = trunc(line + k->second, 255); }
            else if (line.size() < 255) line += ch;
        } else if (ch == '\n') { mOut(n, line); line.clear(); }
        else if (line.size() < 255) line += ch;
    }
}
void cNews(int n, const F &f) {
    const char *bar = "--------------------------------------";
    std::string a = f.size() > 1 ? f[1] : "";
    if (a.empty() || a == "(null)") {
        bool any = false;
        for (int i = 1; i < 10; i++) {
            std::string *c = textFile(fmt("news.%d", i));
            if (!c) continue;
            if (!any) mOut(n, bar);
            any = true;
            showFile(n, *c, 254);
            mOut(n, bar);
        }
        if (!any) mStatus(n, "News", "No news.");
        return;
    }
    std::string *c = textFile("news." + a);
    if (!c) { mError(n, "Entry not found."); return; }
    mOut(n, bar); showFile(n, *c, 254); mOut(n, bar);
}
void cHelp(int n) {
    std::string *c = textFile("icbd_help");
    if (!c) { mError(n, "No help file found."); return; }
    showFile(n, *c, 255);
}
void cStats(int n, const F &f) {
    if (f.size() == 2 && f[1] == "reset") {
        if (!checkAuth(n)) { mError(n, "You are not authorized to do this."); return; }
        M.st = {}; M.st.start = W.now();
        mStatus(n, "Stats", "Stats have been reset.");
        return;
    }
    auto s = [](long v) { return v != 1 ? "s" : ""; };
    mOut(n, "Server Settings:");
    mOut(n, fmt("  %s, Protocol Level %d", VERSION, PROTO_LEVEL));
    mOut(n, fmt("  Max Users: %d Max Groups: %d", MAXREAL, MAXG));
    mOut(n, "Server Stats:");
    char b[64]; struct tm m; gmtime_r(&M.st.start, &m); asctime_r(&m, b); b[strlen(b) - 1] = 0;
    mOut(n, std::string("  Started: ") + b);
    mOut(n, fmt("  %ld signon%s, %ld boot%s, %ld drop%s", M.st.signons, s(M.st.signons), M.st.boots, s(M.st.boots), M.st.drops, s(M.st.drops)));
    mOut(n, fmt("  %ld idleboot%s, %ld idlemod pass%s", M.st.idleboots, s(M.st.idleboots), M.st.idlemods, M.st.idlemods != 1 ? "es" : ""));
    int nu = 0, na = 0, ng = 0;
    for (int i = 0; i < MAXREAL; i++) if (M.u[i].login > L_FALSE) { nu++; if (!M.u[i].away.empty()) na++; }
    for (auto &g : M.g) if (!g.name.empty() && (g.name != "ICB" || countIn("ICB") > 1)) ng++;
    mOut(n, fmt("  %d user%s in %d group%s (%d away user%s)", nu, s(nu), ng, s(ng), na, s(na)));
}
void cShuttime(int n, const F &f) {
    if (f.size() != 2) return;
    if (M.die < 0) { mStatus(n, "Shutdown", "No shutdown time scheduled."); return; }
    int left = (int)(M.die - W.now());
    if (left >= 3600) mStatus(n, "Shutdown", fmt("%d hour(s), %d minute(s) left until scheduled shutdown.", left / 3600, left % 3600 / 60));
    else if (left > 60) mStatus(n, "Shutdown", fmt("%d minute(s) left until scheduled shutdown.", left / 60));
    else mStatus(n, "Shutdown", fmt("%d second(s) left until scheduled shutdown!", left));
}
void cVersion(int n, const F &f) {
    if (f.size() != 2) return;
    mOut(n, VERSION);
    mOut(n, fmt("Proto Level: %d Max Users: %d Max Groups: %d", PROTO_LEVEL, MAXREAL, MAXG));
}

// ---------------------------------------------------------------- personal settings
static bool settings(const std::string &arg, const char *ok, std::map<char, int> &o, std::string &who) {
    who = arg;
    while (!who.empty() && who[0] == '-') {
        std::string fl = word(who);
        for (size_t i = 1; i < fl.size(); i++) {
            char c = fl[i], slot = c == 's' ? 'n' : c;
            if (!strchr(ok, c) || o.count(slot)) return false;
            o[slot] = c == 's' ? 1 : c == 'n' ? 0 : 1;
        }
        who = tail(who);
    }
    who = up(who);
    return true;
}
void cHush(int n, const F &f) {
    User &x = M.u[n];
    std::map<char, int> o; std::string who;
    if (f.size() >= 2 && !settings(f[1], "qnspo", o, who)) { mError(n, "Usage: hush {-q} {-p} {-o} {-n nickname | -s address}"); return; }
    if (who.empty()) {
        if (x.priN.count() + x.pubN.count() + x.priS.count() + x.pubS.count() == 0) { mStatus(n, "Hush-List", "Empty List"); return; }
        for (auto &s : x.priN.v) mStatus(n, "Personal-Nick-Hushed", s);
        for (auto &s : x.pubN.v) mStatus(n, "Open-Nick-Hushed", s);
        for (auto &s : x.priS.v) mStatus(n, "Personal-Site-Hushed", s);
        for (auto &s : x.pubS.v) mStatus(n, "Open-Site-Hushed", s);
        return;
    }
    bool site = o.count('n') && o['n'] == 1, quiet = o.count('q'), pri = o.count('p'), pub = o.count('o');
    if (!pri && !pub) pri = pub = true;
    auto toggle = [&](NL &l, const char *kind) {
        std::string name = std::string(site ? "site " : "nickname ") + kind;
        if (!l.present(who)) {
            if (l.count() == 32) { mError(n, "Max number of " + name + " hushes reached."); return false; }
            l.put(who);
            if (!quiet) mStatus(n, "Hush", who + " added to " + name + " hush list.");
        } else { l.del(who); if (!quiet) mStatus(n, "Hush", who + " removed from " + name + " hush list."); }
        return true;
    };
    if (pri && !toggle(site ? x.priS : x.priN, "personal")) return;
    if (pub) toggle(site ? x.pubS : x.pubN, "open");
}
void cNotify(int n, const F &f) {
    User &x = M.u[n];
    std::map<char, int> o; std::string who;
    if (f.size() >= 2 && !settings(f[1], "qns", o, who)) { mError(n, "Usage: notify {-q} {-n nickname | -s address}"); return; }
    if (who.empty()) {
        if (x.nN.count() + x.sN.count() == 0) { mStatus(n, "Notify-List", "Empty List"); return; }
        for (auto &s : x.nN.v) mStatus(n, "Notify-Nickname", s);
        for (auto &s : x.sN.v) mStatus(n, "Notify-Site", s);
        return;
    }
    bool site = o.count('n') && o['n'] == 1, quiet = o.count('q');
    NL &l = site ? x.sN : x.nN; std::string name = site ? "site" : "nickname";
    if (l.present(who)) { l.del(who); if (!quiet) mStatus(n, "Notify", who + " removed from " + name + " notify list."); return; }
    if (l.count() == 40) { mError(n, "Max number of " + name + " notifies reached."); return; }
    l.put(who);
    if (quiet) return;
    mStatus(n, "Notify", who + " added to " + name + " notify list.");
    if (!site) { int d = findUser(who); if (d > 0) mStatus(n, "Notify", M.u[d].nick + " is logged in now."); }
}
void cEcho(int n, const F &f) {
    if (f.size() != 2) return;
    if (ieq(f[1], "off")) { M.u[n].echoback = 0; mStatus(n, "Echo", "Echoback off"); }
    else if (ieq(f[1], "on")) { M.u[n].echoback = 1; mStatus(n, "Echo", "Echoback on"); }
    else if (ieq(f[1], "verbose")) { M.u[n].echoback = 2; mStatus(n, "Echo", "Echoback on verbose"); }
    else mError(n, "Echoback: needs on/off/verbose");
}
void cNobeep(int n, const F &f) {
    if (f.size() != 2) return;
    if (ieq(f[1], "off")) { M.u[n].nobeep = 0; mStatus(n, "No-Beep", "No-Beep off"); }
    else if (ieq(f[1], "on")) { M.u[n].nobeep = 1; mStatus(n, "No-Beep", "No-Beep on"); }
    else if (ieq(f[1], "verbose")) { M.u[n].nobeep = 2; mStatus(n, "No-Beep", "No-Beep on (verbose)"); }
    else mError(n, "No-Beep: needs off/on/verbose");
}
void cPing(int n, const F &f) {
    if (f.size() != 2) return;
    std::string w = word(f[1]); int d = n;
    if (!w.empty()) { d = findUser(w); if (d <= 0) { mError(n, "Can't locate user (" + w + ")"); return; } }
    stat(P_PING);
    M.u[d].pingUs = W.usNow; M.u[d].pong = n;
    mRaw(d, "l" + M.u[n].nick);
}
void cNoaway(int n, const F &f) {
    if (f.size() > 2) return;
    User &x = M.u[n];
    if (x.away.empty()) { mStatus(n, "Away", "Away not set!"); return; }
    x.away.clear(); x.lastaway = 0; x.lastawaytime = 0;
    mStatus(n, "Away", "Away message unset.");
}
int countFmt(const std::string &s);
extern const char *BADFMT, *ONEFMT;
void cAway(int n, const F &f) {
    if (f.size() > 2) return;
    User &x = M.u[n];
    std::string a = f.size() > 1 ? f[1] : "";
    if (a.empty()) { mStatus(n, "Away", x.away.empty() ? "Away message is not set." : "Away message is set to \"" + x.away + "\""); return; }
    int k = countFmt(a);
    if (k < 0) { mError(n, BADFMT); return; }
    if (k != 1) { mError(n, ONEFMT); return; }
    x.away = trunc("(%s@" + clockStr() + ") " + a, 202);
    x.lastaway = 0; x.lastawaytime = 0;
    mStatus(n, "Away", "Away message set to \"" + x.away + "\"");
}

// ---------------------------------------------------------------- database
static std::string key(const std::string &nick, const std::string &attr) { return lo(nick + "." + attr); }
static uint64_t dbHash(const Db &d) {
    uint64_t h = 1469598103934665603ull;
    for (auto &p : d) for (auto *s : {&p.first, &p.second}) { for (unsigned char c : *s) { h ^= c; h *= 1099511628211ull; } h ^= 0x1ff; h *= 1099511628211ull; }
    return h;
}
static std::set<uint64_t> g_ever;          // every state the database ever had in this run
static bool g_mut;                         // the database changed in the present callback
static void mutated() { uint64_t h = dbHash(M.db); M.dbSince.push_back(M.db); g_ever.insert(h); }
static bool dbGet(const std::string &nick, const std::string &attr, std::string &v) { auto i = M.db.find(key(nick, attr)); if (i == M.db.end()) return false; v = i->second; return true; }
static bool dbHas(const std::string &nick, const std::string &attr) { std::string v; return dbGet(nick, attr, v); }
static void dbSet(const std::string &nick, const std::string &attr, const std::string &v) {
    if (M.dbDown) return;
    std::string &s = M.db[key(nick, attr)];
    std::string nv = trunc(cstr(v), 4095);
    bool changed = s != nv || g_ever.empty(); s = nv;
    if (changed) { g_mut = true; mutated(); }
}
static void dbDel(const std::string &nick, const std::string &attr) { if (M.dbDown) return; if (M.db.erase(key(nick, attr))) { g_mut = true; mutated(); } }

static bool parseDb(const std::string &c, Db &out) {
    auto u32 = [&](size_t o) { return (uint32_t)(unsigned char)c[o] | (uint32_t)(unsigned char)c[o + 1] << 8 | (uint32_t)(unsigned char)c[o + 2] << 16 | (uint32_t)(unsigned char)c[o + 3] << 24; };
    out.clear();
    if (c.size() < 8 || memcmp(c.data(), "IDB\1", 4)) return false;
    uint32_t n = u32(4); size_t o = 8;
    for (uint32_t i = 0; i < n; i++) {
        if (o + 8 > c.size()) return false;
        size_t k = u32(o), v = u32(o + 4); o += 8;
        if (k > c.size() || v > c.size() || o + k + v > c.size()) return false;
        out[c.substr(o, k)] = c.substr(o + k, v); o += k + v;
    }
    return true;
}
static std::string diffDb(const Db &want, const Db &got) {
    for (auto &p : want) { auto i = got.find(p.first); if (i == got.end()) return "record \"" + esc(p.first) + "\" is missing"; if (i->second != p.second) return "record \"" + esc(p.first) + "\" is \"" + esc(i->second) + "\" instead of \"" + esc(p.second) + "\""; }
    for (auto &p : got) if (!want.count(p.first)) return "record \"" + esc(p.first) + "\" should not exist";
    return "equal";
}
// What the database file holds now, judged against a set of admissible states
static void checkStored(const char *when, bool exact, Tags t) {
    std::string *c = W.disk.content("icbdb.db"); Db d;
    if (c && !parseDb(*c, d)) {
        if (M.dbDown) { if (*c != M.dbRaw) violation(t, "db-lost", std::string("an unreadable database file was overwritten ") + when); return; }
        violation(t, "db-corrupt", std::string("the stored database is unreadable ") + when);
    }
    if (M.dbDown) { if (!c || *c != M.dbRaw) violation(t, "db-lost", std::string("the database file that could not be read was replaced ") + when); return; }
    if (d == M.db) return;
    if (exact) violation(t, "db-lost", std::string("the stored database lacks an acknowledged change ") + when + ": " + diffDb(M.db, d));
    for (auto &s : M.dbSince) if (s == d) return;
    violation(t, "db-mixture", std::string("the stored database is no state the server ever acknowledged ") + when + ": " + diffDb(M.dbSince.empty() ? M.db : M.dbSince.front(), d));
}

// ---------------------------------------------------------------- registration
bool checkAuth(int n) { return ieq(M.u[n].nick, "ADMIN") && M.u[n].password == SIM_ADMIN_PWD; }
int valUser(const std::string &who, const std::string &pw) {
    std::string v;
    if (pw.empty() || !dbGet(who, "password", v)) return -1;
    return v == trunc(pw, 12) ? 0 : -1;
}
static std::string stamp() { time_t t = W.now(); struct tm m; gmtime_r(&t, &m); char b[128]; strftime(b, sizeof b, "%e-%h-%Y %H:%M UTC", &m); return b; }
void nickWriteTime(int n, bool off) {
    User &x = M.u[n];
    if (x.realname.empty()) return;
    if (off && !dbHas(x.nick, "nick")) return;
    dbSet(x.nick, off ? "signoff" : "signon", stamp());
}
int nickCheckMsg(int n) {
    User &x = M.u[n]; std::string v;
    if (x.realname.empty()) return -1;
    if (!dbGet(x.nick, "nummsg", v)) { dbSet(x.nick, "nummsg", "0"); return 0; }
    return atoi(v.c_str());
}
void regainMods(int n) {
    for (int i = 1; i < MAXG; i++) {
        Group &g = M.g[i];
        if (!(g.timeout > 0 && g.missing == M.u[n].nick)) continue;
        Ctx c(T(10, 14), "moderator returns"); stat(P_MODREGAIN);
        g.timeout = 0; g.mod = n; g.missing = "";
        for (int j = 1; j < MAXREAL; j++) if (j != n && ieq(M.u[j].group, g.name)) mStatus(j, "Mod", M.u[n].nick + " is the active moderator again.");
        mStatus(n, "Mod", "You are the moderator of group " + g.name);
    }
}
void mailNotice(int n) {
    Ctx c(T(16), "mail notice");
    int k = nickCheckMsg(n);
    if (k == 1) mStatus(n, "Message", "You have 1 message"); else if (k > 1) mStatus(n, "Message", fmt("You have %d messages", k));
}
void missingModNotice(int n) {
    Ctx c(T(10, 14), "missing moderator notice");
    int j = 0;
    for (auto &g : M.g) if (ieq(M.u[n].nick, g.missing)) { mStatus(n, "Mod", "You are moderator of group " + g.name); j++; }
    if (j) mStatus(n, "Mod", std::string("You must register using /p <password> to regain mod of the above ") + (j == 1 ? "group." : "groups."));
}
int nickWrite(int n, const std::string &pw0, bool verifyOnly) {
    User &x = M.u[n];
    Ctx c(T(14), "password");
    if (pw0.empty()) { mError(n, "Password cannot be null"); return -1; }
    std::string pw = trunc(pw0, 12), v;
    if (!dbGet(x.nick, "password", v)) {
        if (verifyOnly) { mError(n, "[ERROR] Nick " + x.nick + " not found"); return -1; }
        stat(P_REG);
        dbSet(x.nick, "password", pw); dbSet(x.nick, "nick", x.nick); dbSet(x.nick, "home", addrOf(x));
        mStatus(n, "Register", "Nick registered");
        x.realname = "registered"; nickWriteTime(n, false); x.password = pw;
        return 0;
    }
    if (v != pw) { stat(P_AUTHBAD); mError(n, "Authorization failure"); x.realname = ""; return -1; }
    stat(P_AUTHOK);
    mStatus(n, "Register", "Nick registered");
    x.realname = "registered"; nickWriteTime(n, false); x.password = pw;
    regainMods(n); mailNotice(n);
    for (int i = 1; i < MAXG; i++) talkReport(n, i);
    return 0;
}

static void textLines(int n, std::string line) {
    line = trunc(line, 254); line += '\0';
    std::string temp; size_t s = 0, p = 0, lastw = 0; int count = 0;
    auto cs = [&](size_t from, size_t to) { return line.substr(from, to - from); };
    while (line[p]) {
        if (line[p] == '\n') { temp = "Text: " + cs(s, p); mOut(n, temp); p++; count = 0; lastw = s = p; continue; }
        if (line[p] == ' ') lastw = p;
        if (count == 62) {
            if (p - lastw > 40) { temp = "Text: " + cs(s, p - 1) + "-"; mOut(n, temp); p--; s = p; }
            else { temp = "Text: " + cs(s, lastw); mOut(n, temp); p = lastw + 1; s = p; }
            lastw = p; count = 0;
        } else { count++; p++; }
    }
    if (count > 0) temp = "Text: ";
    temp += cs(s, line.size() - 1);
    mOut(n, temp);
}

// 0 known and validated, -2 known but not validated, -1 unknown. quiet: only validate user n
int nickLookup(int n, const std::string &who, bool quiet) {
    std::string v, t;
    if (who.empty()) { if (!quiet) mOut(n, "Usage: whois nickname"); return -1; }
    if (who.size() > 12) { if (!quiet) mError(n, "nickname too long"); return -1; }
    std::string home;
    if (!dbGet(who, "home", home)) { if (!quiet) mError(n, who + " is not in the database."); return -1; }
    if (quiet) return !ieq(home, addrOf(M.u[n])) || dbHas(who, "secure") ? -2 : 0;
    auto get = [&](const char *a, const char *none) { return dbGet(who, a, t) ? t : std::string(none); };
    auto pad = [](std::string s) { while (s.size() < 36) s += ' '; return s; };
    mOut(n, pad("Nickname:     " + trunc(get("nick", ""), 12)) + "Address:   " + home);
    mOut(n, pad("Phone Number: " + get("phone", "(None)")) + "Real Name: " + get("realname", "(None)"));
    mOut(n, pad("Last signon:  " + get("signon", "(unknown)")) + "Last signoff:  " + get("signoff", "(unknown)"));
    if (dbGet(who, "email", t)) mOut(n, "E-mail addr:  " + t);
    if (dbGet(who, "www", t)) mOut(n, "WWW:  " + t);
    if (dbGet(who, "addr", t)) {
        mOut(n, "Street Address:");
        std::string l = "  ";
        for (char ch : t) { if (ch == '|') { mOut(n, l); l = "  "; } else l += ch; }
        mOut(n, l);
    }
    if (dbGet(who, "text", t)) textLines(n, t);
    return 0;
}

static void setInfo(int n, const char *tag, std::string data, unsigned max, const char *msg) {
    User &x = M.u[n];
    if (x.realname.empty()) { mError(n, "Setting your name requites that you be registered."); return; }
    if (data.size() > max) { data = trunc(data, max); mError(n, fmt("%s truncated to %u characters", msg, max)); }
    dbSet(x.nick, tag, data);
    mOut(n, std::string(msg) + " set to '" + trunc(data, 160) + "'");
}
static void mailWrite(int n, const std::string &to, const std::string &text) {
    User &x = M.u[n]; std::string v;
    addTags(T(16));
    if (to.empty() || text.empty()) { mOut(n, "Usage: write nickname message text"); return; }
    if (x.realname.empty()) { mError(n, "You must be registered to write a message."); return; }
    if (!dbHas(to, "nick")) { mError(n, to + " is not registered"); return; }
    int k = dbGet(to, "nummsg", v) ? atoi(v.c_str()) : 0;
    k++;
    if (k > 20) { stat(P_MSGFULL); mError(n, "User mailbox full"); return; }
    stat(P_MSGW);
    dbSet(to, fmt("header%d", k), "Message left at " + stamp() + ":");
    dbSet(to, fmt("from%d", k), x.nick);
    dbSet(to, fmt("message%d", k), filterText(text, 4095));
    dbSet(to, "nummsg", fmt("%d", k));
    mStatus(n, "Message", "Text saved to file");
    int d = findUser(to);
    if (d > 0) { mStatus(n, "Warning", M.u[d].nick + " is logged in now."); mStatus(d, "Message", fmt("You have %d message%s", k, k > 1 ? "s" : "")); }
}
static void mailRead(int n) {
    User &x = M.u[n]; std::string v;
    addTags(T(16));
    if (x.realname.empty()) { mError(n, "You must be registered to read any messages."); return; }
    int k = dbGet(x.nick, "nummsg", v) ? atoi(v.c_str()) : 0;
    if (k == 0) mError(n, "No messages");
    for (int i = 1; i <= k; i++) {
        stat(P_MSGR);
        if (dbGet(x.nick, fmt("header%d", i), v)) mOut(n, v);
        dbDel(x.nick, fmt("header%d", i));
        std::string from = dbGet(x.nick, fmt("from%d", i), v) ? trunc(v, 12) : "Server";
        dbDel(x.nick, fmt("from%d", i));
        if (dbGet(x.nick, fmt("message%d", i), v)) mStored(n, from, v);
        dbDel(x.nick, fmt("message%d", i));
    }
    dbSet(x.nick, "nummsg", "0");
}
static void regDelete(int n, const std::string &pw0) {
    User &x = M.u[n]; std::string v, pw = trunc(pw0, 12);
    if (x.realname.empty()) { mError(n, "You must be registered to delete your entry."); return; }
    if (!dbGet(x.nick, "password", v)) { mError(n, "You don't have a password."); return; }
    if (v != pw) { stat(P_AUTHBAD); mError(n, "Password incorrect."); return; }
    stat(P_DELETE);
    for (const char *a : {"secure", "realname", "email", "signon", "signoff", "nick", "password", "phone", "text", "home", "addr", "nummsg", "www"}) dbDel(x.nick, a);
    for (int i = 1; i <= 20; i++) for (const char *a : {"header", "message", "from"}) dbDel(x.nick, fmt("%s%d", a, i));
    x.realname.clear();
    mOut(n, "Record Deleted");
}
static void changePass(int n, const std::string &o, const std::string &w) {
    User &x = M.u[n]; std::string v;
    if (!dbGet(x.nick, "password", v) || v != trunc(o, 12)) { stat(P_AUTHBAD); mError(n, "Authorization failure"); return; }
    if (w.empty()) { mError(n, "Missing paramater"); return; }
    dbSet(x.nick, "password", trunc(w, 12));
    mStatus(n, "Pass", "Password changed");
    dbSet(x.nick, "home", addrOf(x));
}

bool cAuto(int n, const F &f) {
    std::string k = lo(word(f[0])), a = f.size() > 1 ? f[1] : "", w = word(a);
    User &x = M.u[n];
    auto info = [&](const char *tag, unsigned max, const char *name, const char *usage) { if (a.empty()) mOut(n, usage); else setInfo(n, tag, a, max, name); };
    if (k == "read") mailRead(n);
    else if (k == "whois") nickLookup(n, w, false);
    else if (k == "p") nickWrite(n, w, false);
    else if (k == "rname") info("realname", 25, "Real Name", "Usage: rname Real Name");
    else if (k == "write") mailWrite(n, w, tail(a));
    else if (k == "text") info("text", 200, "Message text", "Usage: text Message Text");
    else if (k == "addr") info("addr", 79, "Address", "Usage: addr Address Line 1 | Address Line 2 | Address Line 3");
    else if (k == "phone") info("phone", 14, "Phone Number", "Usage: phone 1-800-555-1212");
    else if (k == "email") info("email", 60, "E-Mail", "Usage: email e-mail address");
    else if (k == "www") info("www", 80, "WWW", "Usage: www URL");
    else if (k == "delete") { if (w.empty()) mOut(n, "Usage: delete password"); else regDelete(n, w); }
    else if (k == "info") nickLookup(n, "server", false);
    else if (k == "cp") changePass(n, w, word(tail(a)));
    else if (k == "secure" || k == "nosecure") {
        if (x.realname.empty()) mError(n, "You must be registered to change your security.");
        else if (k == "secure") { dbSet(x.nick, "secure", "SECURED"); mOut(n, "Security set to password required."); }
        else { dbDel(x.nick, "secure"); mOut(n, "Security set to automatic."); }
    } else if (k == "help") {
        for (const char *t : {"Command <argument(s)>           What it does", "---------------------           ------------",
             "whois <nick>                    returns info if available", "p <passwd>                      registers current user info",
             "delete <password>               deletes your info from the server db", "cp <oldpassword> <newpasswd>    changes password",
             "rname                           sets your real name", "phone                           sets your phone number",
             "addr                            sets your street address", "email                           sets your e-mail address",
             "text                            sets your text message", "www                             sets your WWW home page",
             "read                            reads your server messages", "write <nick>                    send someone a server message",
             "secure                          always requires a password to register", "nosecure                        auto-validates based on username/hostname",
             "info                            gives more info on Server", "help                            lists this table",
             "?                               shows usage", "See also /s_help"}) mOut(n, t);
    } else mPerson(NS, n, "usage: /m server {whois | p | cp | delete | rname | email | phone | addr | text | read | write | www | info | secure | nosecure | help | ?}");
    M.u[NS].t_recv = W.now();
    return true;
}

void cName(int n, const F &f) {
    if (f.size() != 2) return;
    User &x = M.u[n];
    if (f[1].empty()) { mError(n, "The nickname may not be null."); return; }
    std::string nn = filterNick(trunc(f[1], 12));
    int o = findUser(nn);
    if ((o >= 0 && !ieq(nn, x.nick)) || (ieq(nn, "admin") && x.password != SIM_ADMIN_PWD)) {
        stat(P_RENAMEREFUSE);
        if (ieq(nn, "admin")) addTags(T(13));
        mError(n, "Nickname already in use."); return;
    }
    stat(P_RENAME);
    std::string t = x.nick + " changed nickname to " + nn;
    statusGroup(1, 0, n, "Name", t);
    nickWriteTime(n, true);
    x.nick = nn;
    mStatus(n, "Name", t);
    x.realname = "";
    int r = nickLookup(n, nn, true);
    if (r == 0) {
        x.realname = "registered";
        mStatus(n, "Register", "Nick registered");
        nickWriteTime(n, false); regainMods(n); mailNotice(n);
    } else if (r == -2) { mStatus(n, "Register", "Send password to authenticate your nickname."); missingModNotice(n); }
    else mStatus(n, "No-Pass", "To register your nickname type /m server p mypassword");
    for (int i = 0; i < MAXG; i++) talkReport(n, i);
}

// ---------------------------------------------------------------- life cycle
void setOp(Tags t, const std::string &why);
static void loadDb() {
    M.db.clear(); M.dbDown = false;
    std::string *c = W.disk.content("icbdb.db");
    W.dbReadFault = W.dbReadArm; W.dbReadArm = 0;
    if (c && (W.dbReadFault == 1 || (W.dbReadFault == 2 && !c->empty()))) { M.dbDown = true; M.dbRaw = *c; }
    else if (c && !parseDb(*c, M.db)) { M.db.clear(); M.dbDown = true; M.dbRaw = *c; }
    M.dbSince.clear(); M.dbSince.push_back(M.db); g_ever.insert(dbHash(M.db));
    W.dbFault = false; g_mut = false; M.diskTrouble = false;
}
void modelBoot() {
    bool down = M.dbDown; (void)down;
    std::vector<Db> since;
    M = Model();
    for (auto &x : M.u) { x.priN.max = x.pubN.max = x.priS.max = x.pubS.max = 32; x.nN.max = x.sN.max = 40; }
    M.logLevel = W.logLevel; M.st.start = W.now(); M.live = true;
    W.expectExit = false;
    loadDb();
    User &s = M.u[NS];
    s.loginid = "server"; s.nodeid = W.hostName; s.nick = "Server"; s.group = "ICB"; s.realname = "registered"; s.nobeep = 1;
    s.login = L_COMPLETE; s.t_on = s.t_recv = W.now();
    Group &g = M.g[0];
    g.name = "ICB"; g.topic = "...here to serve you!"; g.vis = SUPERSECRET; g.control = RESTRICTED; g.mod = NS; g.vol = QUIET;
    nickWriteTime(NS, false);
}
void modelHost(const std::string &h) { M.u[NS].nodeid = h; }
void modelDbUp() {   // the database can be read again
    W.dbReadArm = 0;
    bool was = W.dbReadFault == 1 || W.dbReadFault == 2;
    W.dbReadFault = 0;
    if (!was || !M.live || !M.dbDown) return;
    std::string *c = W.disk.content("icbdb.db");
    if (!c || *c != M.dbRaw) violation(T(15), "db-lost", "the database file that could not be read was replaced");
    M.dbDown = !parseDb(*c, M.db);
    if (M.dbDown) M.db.clear();
    M.dbSince.clear(); M.dbSince.push_back(M.db); g_ever.insert(dbHash(M.db));
}
void modelAfter() {
    if (W.restartPending) {
        if (!W.handFired) violation(T(24, 13), "no-restart", "the server was told to restart and did not");
        W.restartPending = W.handFired = false; W.handKind = 0;
    }
    if (W.expectExit) violation(T(20, 13), "no-exit", "the server should have stopped here and did not");
    for (int i = 0; i < MAXU; i++) for (int j = i + 1; j < MAXU; j++)
        if (!M.u[i].nick.empty() && ieq(M.u[i].nick, M.u[j].nick)) harnessError("model: nickname twice");
    Tags t = T(15) | (g_mut ? T(14, 16) : 0);
    if (W.dbFault) { M.diskTrouble = true; W.dbFault = false; checkStored("after a failed save", false, T(15, 4)); g_mut = false; return; }
    if (M.dbDown) { if (g_mut) g_mut = false; return; }
    if (g_mut || (W.incarnation >= 0 && M.dbSince.size() > 1 && !M.diskTrouble)) {
        checkStored("once the command was done", true, t);
        if (M.diskTrouble) stat(P_RESTORED);
        M.diskTrouble = false;
        M.dbSince.clear(); M.dbSince.push_back(M.db);
        stat(P_DBWRITE);
    }
    g_mut = false;
}
// A new program image takes over the sockets and what the old one wrote down.
void restartDone();
void modelHandOver() {
    W.restartPending = false; W.handKind = 0; W.expectExit = false;
    stat(P_HANDOVER);
    checkStored("when the server was restarted", !M.diskTrouble && !W.dbFault && !g_mut && M.dbSince.size() <= 1, T(15, 24));
    for (auto &p : W.conns) {
        Conn &c = *p.second;
        if (!c.alive() || c.lost) continue;
        if (c.tls) {                                   // the TLS session lives in the old image
            if (c.announced) { c.kill = true; c.killWhy = "its TLS session did not survive the restart"; c.killTags |= T(24); for (auto &e : c.expect) e.optional = true; }
            else c.sslErr = true;
            stat(P_HANDCUT);
        } else if (c.announced && (c.blocked || c.consumed != c.dispEnd)) {
            c.mayEnd = 6; if (c.blocked) for (auto &e : c.expect) e.optional = true;
            c.blocked = false;
        } else stat(P_HANDKEPT);
    }
    loadDb();
    for (auto &x : M.u) { x.lpriv = x.pong = -1; x.pingUs = 0; x.recvCount = 0; x.secure = 0; }
    M.die = -1; M.shutNotify = 0; M.isBooting = 0; M.st = {}; M.st.start = W.now(); M.logLevel = W.logLevel;
    setOp(T(24), "restart");
    restartDone();
}
void modelServerExit(int code) {
    if (!W.expectExit) violation(T(4, 5, 20, 13), "server-exit", "the server exited (code " + std::to_string(code) + ") without being told to");
    if (code & 255) violation(T(26, 20), "exit-status", "the server was told to stop and reports failure (" + std::to_string(code) + ")");
    if (W.inCallback) { modelCrash(0); return; }   // a signal in the middle of a command
    checkStored("after an orderly exit", !M.diskTrouble && !W.dbFault && !g_mut, T(15));
}
// kind 0: the process died, the machine lives; 1: power loss
void modelCrash(int kind) {
    if (kind == 0) { checkStored("after a crash of the process", !M.diskTrouble && !W.dbFault && !g_mut && !W.inCallback && M.dbSince.size() <= 1, T(15)); }
    else {
        std::string *c = W.disk.content("icbdb.db"); Db d;
        if (c && !parseDb(*c, d) && !M.dbDown) violation(T(15), "db-corrupt", "the stored database is unreadable after a power failure");
        if (!M.dbDown && !g_ever.count(dbHash(d))) violation(T(15), "db-mixture", "after a power failure the stored database is no state it ever had: " + diffDb(M.db, d));
    }
    W.inCallback = false;
}
void modelEndOfRun() {
    if (!M.diskTrouble) checkStored("at the end of the run", true, T(15));
    else checkStored("at the end of the run", false, T(15));
}
void modelDbWritten() {}
uint64_t modelSignature() {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t v) { h ^= v; h *= 1099511628211ull; };
    auto ms = [&](const std::string &s) { for (unsigned char c : s) mix(c); mix(256); };
    for (auto &x : M.u) { mix((uint64_t)x.login); ms(x.group); mix(x.realname.empty()); mix(!x.away.empty()); mix(x.priN.count() + x.pubN.count() * 7 + x.nN.count() * 31); mix((uint64_t)x.echoback); mix((uint64_t)x.nobeep); mix((uint64_t)x.kill); }
    for (auto &g : M.g) { ms(g.name); mix((uint64_t)(g.vis * 64 + g.control * 8 + g.vol)); mix((uint64_t)(g.mod + 1)); mix((uint64_t)g.size); mix(g.timeout > 0); mix(g.nInv.count() + 7 * g.sInv.count()); mix(g.nTalk.count()); }
    mix(M.db.size()); mix(M.die > 0);
    for (auto &p : W.conns) { Conn &c = *p.second; if (!c.alive()) continue; mix((uint64_t)c.blocked); mix(!c.sentPartial.empty()); mix(c.expect.size()); mix(c.rx.empty()); }
    return h;
}

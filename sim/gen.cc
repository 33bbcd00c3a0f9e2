// Seeded workload and fault generator: a StepSource that looks at the model to choose meaningful next steps.
#include "gen.h"
#include "model.h"
#include <arpa/inet.h>
#include <cerrno>

enum Act {
    CONNECT, LOGIN, OPEN, PRIV, BEEP, GCHG, PASS, BOOT, STATUS, TOPIC, INVITE, CANCEL, TALK, EXCLUDE, WHO, WHEREIS, NAME, HUSH, NOTIFY, ECHOB,
    NOBEEP, AWAY, NOAWAY, PING, PONG, MISC, REG, INFOSET, DELREG, WRITEM, READM, WHOIS, DROP, SHUTDOWN, WALL, LOGL, SHUTTIME, STATS, GARBAGE, BADFRAME, LEAVE,
    ADVS, ADVM, ADVL, CLOCK, STALL, UNSTALL, SEG, UNSEG, SHORTW, AGAIN, FLUSH, INTR, ACCEPTERR, SSLNEW, DISKF, CRASH, SIG, POLLS, FLOOD, PEERERR, RAWADMIN, DIRECTED, DRIP, IOERR, TLSBAD, SOCKOPT, USAGE, RESTART, ALLOC, SCENE, LOGF, EDITF, STARTF, NACT
};
static const int baseW[NACT] = {
    /*CONNECT*/ 10, 12, 26, 16, 5, 14, 4, 5, 14, 4, 6, 2, 5, 4, 8, 3, 7, 6, 4, 3,
    /*NOBEEP*/ 2, 3, 2, 3, 3, 3, 5, 3, 1, 3, 3, 3, 1, 1, 1, 1, 2, 1, 2, 1, 6,
    /*ADVS*/ 6, 2, 1, 0, 4, 4, 5, 3, 3, 3, 6, 1, 1, 0, 0, 0, 0, 8, 2, 0, 1, 6, 2, 1, 1, 1, 2, 0};

static const std::vector<std::string> nickPool = {"alice", "Bob", "carol-x", "dave.d", "Eve_", "frank12chars", "g@h", "Alice2", "zed!", "mo", "Ann'e", "x", "alic", "frank12char"};
static const std::vector<std::string> grpPool = {"1", "alpha", "Beta", "gam~1", "delta", "longgroup", "E.x", "longgrou", "alphab"};
static const std::vector<std::string> pwPool = {"secret", "Secret", "hunter2", "abcdefghijkl", "abcdefghijklm", "p"};
static const std::vector<std::string> loginPool = {"usera", "userb", "joe", "joey", "abcdefghijkl", "root", "user"};

// n characters, neighbours and distant ones all different enough to show a lost, doubled or displaced one
static std::string vary(size_t n, char c) { std::string s; for (size_t i = 0; i < n; i++) { s += c; c = c == 'z' ? 'a' : c == 'Z' ? 'A' : (char)(c + 1); if (i % 11 == 10) c = c == 'z' ? 'a' : c == 'Z' ? 'A' : (char)(c + 1); } return s; }

// kind errno first count: which calls fail while the server starts
static std::string startBad(Rng &r) {
    int k = r.range(1, 13), err = EIO, at = 0, cnt = 1;
    typedef std::vector<int> E;
    switch (k) {
        case 1: err = r.pick(E{EAFNOSUPPORT, EMFILE, ENOBUFS, EACCES}); at = r.below(4); break;
        case 2: err = r.pick(E{EADDRINUSE, EADDRINUSE, EADDRNOTAVAIL, EACCES}); at = r.below(4); break;
        case 3: err = EADDRINUSE; at = r.below(2); break;
        case 4: err = r.pick(E{ENOPROTOOPT, EINVAL, ENOBUFS}); at = r.below(8); break;
        case 5: err = EINVAL; at = r.below(6); break;
        case 6: err = r.pick(E{-2, -3, -4, -10}); at = r.below(2); break;
        case 7: at = r.below(2); break;
        case 8: err = r.pick(E{EACCES, ENOSPC, EROFS}); break;
        case 9: err = r.pick(E{EAGAIN, ENOMEM}); break;
        case 10: err = r.pick(E{EACCES, EROFS, ENOSPC}); break;
        case 11: err = ENOSPC; break;
        case 13: err = EPERM; break;
    }
    if (k <= 5 && r.chance(1, 2)) cnt = r.pick(E{2, 2, 9});
    return std::to_string(k) + " " + std::to_string(err) + " " + std::to_string(at) + " " + std::to_string(cnt);
}
RunCfg makeCfg(int prop, uint64_t seed) {
    Rng r(seed ^ 0xC0FFEEull * 7919);
    RunCfg c;
    c.prop = prop; c.seed = seed;
    c.startUs = (1700000000ull + (uint64_t)r.below(40000000)) * 1000000ull + (uint64_t)r.below(1000000);
    c.ssl = prop == 2 ? true : r.chance(3, 5);
    c.logLevel = r.chance(1, 3) ? r.below(10) : 0;
    auto db = [&](const std::map<std::string, std::string> &m) {
        std::string s("IDB\1", 4);
        auto u32 = [&](size_t v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i) & 255); };
        u32(m.size());
        for (auto &p : m) { u32(p.first.size()); u32(p.second.size()); s += p.first; s += p.second; }
        return s;
    };
    if (r.chance(4, 5)) {
        std::string m;
        int k = r.below(4);
        for (int i = 0; i < k; i++) m += r.pick(std::vector<std::string>{"Welcome", "", "last start %U ok", "100%% fun", vary(300, 'm'), "caf\xc3\xa9", "a\tb%Ub%xU"}) + "\n";
        if (r.chance(1, 6)) m += r.pick(std::vector<std::string>{"unterminated", "100%"});
        c.files["motd"] = m;
    }
    if (r.chance(1, 2)) c.files["icbd_help"] = "help line one\n\n" + vary(r.chance(1, 2) ? 280 : 20, 'h') + "\n";
    for (int i = 1; i < 10; i++) if (r.chance(1, 8)) c.files["news." + std::to_string(i)] = "news item " + std::to_string(i) + "\n" + (r.chance(1, 3) ? vary(300, 'n') + "\n" : "");
    if (r.chance(prop == 22 ? 4 : prop == 23 || prop == 18 ? 2 : 1, 5)) {
        std::string p;
        if (r.chance(1, 2)) p += "# comment\n";
        for (int i = 0; i < 1 + r.below(3); i++) {
            if (r.chance(1, 2)) p += "user\t" + r.pick(loginPool) + "\t" + r.pick(std::vector<std::string>{"h1.example.com", "h2.example.com", "[10.0.0.3]", "[10.0.0.4]"}) + "\t" + r.pick(std::vector<std::string>{"perm_slowmsgs", "perm_slowmsgs", "perm_deny", "perm_deny|perm_slowmsgs", "perm_null"}) + "\n";
            else p += "mask " + r.pick(std::vector<std::string>{"10.0.0.3 255.255.255.255", "10.0.0.0 255.255.255.252", "10.9.0.0 255.255.0.0", "192.168.7.0 255.255.255.0", "10.0.0.8 255.255.255.248", "0.0.0.0 0.0.0.0", "0.0.0.0 128.0.0.0", "10.0.0.1 255.255.255.0"}) + " " + r.pick(std::vector<std::string>{"perm_slowmsgs", "PERM_SLOWMSGS", "perm_deny"}) + "\n";
        }
        c.files["icbd.perms"] = p;
    }
    if (r.chance(prop == 23 || prop == 18 ? 2 : 1, 6)) {
        std::string d;
        for (int i = 0; i < 1 + r.below(2); i++)
            d += r.pick(std::vector<std::string>{"*@h2.example.com", "joe@*", "*@[10.0.0.3]", "userb@h1.example.com", "*@trusted.example.com", "*@victim*"}) + r.pick(std::vector<std::string>{" no-access", " go away please", " "}) + "\n";
        c.files["icbd.deny"] = d;
    }
    int dbk = r.below(10);
    if (dbk >= 4 || prop == 14 || prop == 15 || prop == 16) {
        std::map<std::string, std::string> m;
        int k = r.below(4);
        for (int i = 0; i < k; i++) {
            std::string nk = r.pick(nickPool), l = lo(nk);
            m[l + ".password"] = r.pick(std::vector<std::string>{"secret", "hunter2", "abcdefghijkl", "p"});
            m[l + ".nick"] = nk;
            m[l + ".home"] = r.pick(loginPool) + "@" + r.pick(std::vector<std::string>{"h1.example.com", "h2.example.com", "[10.0.0.3]", "h1.example.com.au", "h1.example.co", "[10.0.0.33]", "H2.Example.com"});
            if (r.chance(1, 3)) m[l + ".secure"] = "SECURED";
            if (r.chance(1, 2)) m[l + ".realname"] = "Real Name";
            if (r.chance(1, 3)) { std::string t = vary(r.chance(1, 2) ? 150 : 12, 't') + " word word\nx " + vary(70, 'y'); if (r.chance(1, 2)) { t = ""; while (t.size() < 240) t += vary((size_t)(r.chance(1, 2) ? r.range(38, 43) : r.range(1, 12)), 'e') + " "; } m[l + ".text"] = t; }
            if (r.chance(1, 3)) m[l + ".addr"] = "line one|line two|three";
            int nm = r.chance(1, 2) ? 0 : r.chance(1, 4) ? r.range(18, 20) : r.below(4);
            if (nm || r.chance(1, 2)) m[l + ".nummsg"] = std::to_string(nm);
            for (int j = 1; j <= nm; j++) { m[l + ".header" + std::to_string(j)] = "Message left at some time:"; m[l + ".from" + std::to_string(j)] = r.pick(nickPool); m[l + ".message" + std::to_string(j)] = "stored " + std::to_string(j); }
        }
        if (r.chance(1, 12)) for (int i = 0; i < 300; i++) m["bulk" + std::to_string(i) + ".nick"] = vary(20, 'b');
        c.files["icbdb.db"] = db(m);
        if (r.chance(1, 25)) c.files["icbdb.db"].resize((size_t)r.below((int)c.files["icbdb.db"].size() + 1));
    }
    if (r.chance(1, prop == 26 ? 1 : 4)) { c.opt = r.below(1024); if (r.chance(1, 2)) c.opt &= ~48; }
    if (prop == 26 && r.chance(1, 2)) c.boot = startBad(r);
    if (r.chance(1, 3)) c.files["icbd.pid"] = r.pick(std::vector<std::string>{"99\n", "424\n", "1234567\n"});
    return c;
}

struct Gen : StepSource {
    RunCfg cfg; Rng r;
    std::deque<std::string> q;
    int w[NACT]; long tot = 0;
    int left, nextId = 1, pollPct, flushPct;
    bool faults, done = false;
    struct Cl { std::string out; bool login = false; bool seg = false, stalled = false; };
    std::map<int, Cl> cl;
    std::vector<std::string> nicks, groups, pws, logins;
    struct Host { std::string addr, rev, fwd; };
    std::vector<Host> hosts;
    int adminRuns = 0;
    bool manyGroups = false, crowd = false, crashArmed = false, dbArmed = false; int diskArmed = 0;

    void e(const std::string &s) { q.push_back(s); }
    explicit Gen(const RunCfg &c) : cfg(c), r(c.seed * 31 + 17) {
        int p = cfg.prop;
        left = r.chance(1, 5) ? r.range(8, 25) : r.chance(1, 15) ? r.range(140, 320) : r.range(30, 140);
        pollPct = r.pick(std::vector<int>{25, 50, 70, 90, 100});
        flushPct = r.pick(std::vector<int>{100, 90, 70, 45});
        faults = r.chance(2, 3);
        for (int i = 0; i < NACT; i++) { w[i] = baseW[i] * 4; if (i > LOGIN && r.chance(1, 5)) w[i] = 0; else if (r.chance(1, 6)) w[i] *= 3; }
        auto mul = [&](std::initializer_list<int> a, int f, int floor = 4) { for (int i : a) { w[i] = std::max(w[i], floor) * f; } };
        if (!faults) for (int i : {STALL, SEG, SHORTW, AGAIN, INTR, ACCEPTERR, BADFRAME, DRIP, IOERR, TLSBAD, SOCKOPT}) w[i] = 0;
        switch (p) {
            case 1: mul({SEG, FLUSH, AGAIN, GARBAGE, BADFRAME, PING, LEAVE}, 3); flushPct = r.pick(std::vector<int>{30, 60, 90}); break;
            case 2: mul({TLSBAD}, 2, 10); mul({SEG, FLUSH, AGAIN, CONNECT, LEAVE}, 2); mul({SSLNEW}, 1, 6); flushPct = r.pick(std::vector<int>{30, 60, 90}); break;
            case 3: mul({STALL, UNSTALL, SHORTW, AGAIN, DRIP}, 4, 12); mul({OPEN, WHO, PRIV}, 2); break;
            case 4: mul({IOERR, TLSBAD, SOCKOPT, USAGE}, 2, 6); mul({GARBAGE, BADFRAME, MISC, LEAVE, RAWADMIN, DIRECTED}, 3); mul({CLOCK, PEERERR, SSLNEW, ACCEPTERR}, 1, 6); break;
            case 5: mul({IOERR, TLSBAD, SOCKOPT}, 2, 8); mul({STALL, SEG, AGAIN, LEAVE, CONNECT, ACCEPTERR, BADFRAME}, 3); mul({SSLNEW}, 1, 6); break;
            case 6: mul({OPEN}, 4); mul({GCHG, STATUS, TALK, HUSH, ECHOB, EXCLUDE, LEAVE}, 2); break;
            case 7: mul({PRIV, BEEP}, 4); mul({NOBEEP, HUSH, ECHOB, AWAY, NAME, PING, PONG, LEAVE}, 2); break;
            case 8: mul({NAME, LOGIN, CONNECT}, 4); mul({LEAVE, PRIV, OPEN}, 2); break;
            case 9: mul({GCHG, WHO}, 4); mul({STATUS, TOPIC, LEAVE, LOGIN, CONNECT, BOOT}, 2); break;
            case 10: mul({PASS, BOOT, STATUS, GCHG}, 3); mul({LEAVE, REG, TOPIC, TALK, INVITE, CANCEL, ADVL, ADVM}, 3); break;
            case 11: mul({INVITE, GCHG, STATUS, CANCEL}, 4); mul({REG, LEAVE, LOGIN, PASS}, 2); break;
            case 12: mul({WHO, STATUS, GCHG, WHEREIS, NOTIFY}, 4); mul({LOGIN, CONNECT, LEAVE, NAME, INVITE}, 2); break;
            case 13: mul({DROP, SHUTDOWN, WALL, LOGL, RAWADMIN}, 6, 6); mul({NAME, LOGIN, CONNECT}, 2); break;
            case 14: mul({REG, INFOSET, DELREG, WHOIS}, 5, 6); mul({NAME, LOGIN, CONNECT, LEAVE}, 3); break;
            case 15: mul({REG, INFOSET, DELREG, WRITEM, READM}, 4, 6); mul({DISKF, CRASH}, 1, 24); mul({SIG}, 1, 6); break;
            case 16: mul({WRITEM, READM, REG}, 5, 8); mul({LOGIN, CONNECT, LEAVE}, 2); mul({CRASH}, 1, 6); break;
            case 17: mul({IOERR, TLSBAD}, 2, 6); mul({LEAVE, CONNECT, LOGIN}, 5); mul({HUSH, NOTIFY, AWAY, ECHOB, NOBEEP, PING, PRIV, REG, FLOOD, WHO}, 2); break;
            case 18: mul({CONNECT, LOGIN, GARBAGE}, 5); mul({LEAVE, DIRECTED}, 2); break;
            case 19: mul({ADVM, ADVL, STATUS}, 5, 12); mul({CLOCK}, 1, 6); mul({AWAY, PASS, TALK}, 2); break;
            case 20: mul({SHUTDOWN, SHUTTIME, ADVM, ADVL}, 6, 8); mul({CLOCK, SIG}, 1, 5); break;
            case 21: mul({HUSH, NOTIFY, AWAY, NOAWAY, ECHOB, NOBEEP}, 4, 8); mul({PRIV, OPEN, NAME, LOGIN, CONNECT, LEAVE, BEEP}, 2); break;
            case 22: mul({FLOOD}, 5, 12); mul({OPEN, ADVS, LEAVE, CONNECT, LOGIN}, 3); break;
            case 23: mul({CONNECT, LOGIN, WHO, WHEREIS}, 5); mul({LEAVE, INVITE, HUSH, NOTIFY}, 2); mul({PEERERR}, 1, 6); break;
            case 24: mul({RESTART}, 1, 60); mul({HUSH, NOTIFY, AWAY, STATUS, INVITE, TALK, TOPIC, REG, ECHOB, NOBEEP, PASS, WHO}, 2); if (faults) mul({STALL, SEG, DRIP}, 1, 16); break;
            case 26: mul({STARTF}, 1, 90); mul({CONNECT, LOGIN, LEAVE}, 2); mul({SIG, CRASH}, 1, 6); left = r.chance(1, 2) ? r.range(4, 20) : left; break;
            case 25: mul({PING, PONG, WHEREIS, STATS, MISC, SHUTTIME}, 6, 8); mul({ADVS, ADVM, LEAVE, CONNECT, LOGIN, NAME, DROP}, 2); mul({EDITF}, 1, 60); if (r.chance(1, 6)) mul({CLOCK}, 1, 6); break;
            default: break;
        }
        if (p != 26 && r.chance(1, 20)) mul({STARTF}, 1, 6);
        if (p != 25 && r.chance(1, p == 23 || p == 18 ? 3 : 10)) mul({EDITF}, 1, 8);
        if (r.chance(1, 2)) { mul({SCENE}, 1, tot0() / r.pick(std::vector<int>{4, 8, 16})); left = left * 2 / 3 + 2; }
        if (p != 15 && r.chance(1, 12)) mul({DISKF, CRASH}, 1, 6);
        if (r.chance(1, 16)) mul({CLOCK}, 1, 6);
        if (r.chance(1, 16)) mul({SIG}, 1, 3);
        if (r.chance(1, 16)) mul({PEERERR}, 1, 4);
        if (r.chance(1, 12)) mul({SSLNEW}, 1, 4);
        if (r.chance(1, p == 3 || p == 4 || p == 5 ? 3 : 12)) mul({ALLOC}, 1, 4);
        if (r.chance(1, p == 4 || p == 5 || p == 13 || p == 20 ? 3 : 16)) mul({LOGF}, 1, 6);
        if (p != 24 && r.chance(1, p == 17 || p == 13 || p == 5 || p == 2 ? 8 : 20)) mul({RESTART}, 1, 12);
        if (p == 13 || p == 20 || p == 24) adminRuns = 1; else if (p == 25) adminRuns = r.chance(1, 2); else adminRuns = r.chance(1, 5);
        if (!adminRuns) w[SHUTDOWN] = w[SHUTDOWN] / 2;
        for (int i = 0; i < NACT; i++) tot += w[i];
        auto sub = [&](const std::vector<std::string> &v, int k) { std::vector<std::string> o = v; while ((int)o.size() > k) o.erase(o.begin() + r.below((int)o.size())); return o; };
        nicks = sub(nickPool, r.range(4, 8)); groups = sub(grpPool, r.range(2, 5)); pws = sub(pwPool, r.range(2, 4)); logins = sub(loginPool, r.range(1, 3));
        if (r.chance(1, p == 9 ? 5 : 14)) { manyGroups = true; for (const char *g : {"g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9"}) groups.push_back(g); }
        if (r.chance(1, p == 9 || p == 12 ? 6 : 20)) {   // many users in one place
            crowd = true; nicks = {}; groups = {r.pick(grpPool)};
            for (int i = 0; i < 17; i++) nicks.push_back(std::string(1, (char)('a' + i)) + vary((size_t)r.below(12), 'k'));
        }
        if (r.chance(1, 12)) groups.push_back("ICB");
        if (p == 22 || r.chance(1, 3)) groups.insert(groups.begin(), {"1", "1"});
        hosts = {{"10.0.0.1", "h1.example.com", "10.0.0.1"}, {"10.0.0.2", "h2.example.com", "10.0.0.9,10.0.0.2"}, {"10.0.0.3", "", ""}, {"10.0.0.4", "h1.example.com", "10.0.0.1"},
                 {"2001:db8::7", "six.example.com", "2001:db8::7"}, {"192.168.7.5", "trusted.example.com", "192.168.7.6"}, {"::ffff:10.0.0.8", "map.example.com", "10.0.0.8"},
                 {"10.0.0.10", vary(60, 'l') + ".example.com", "10.0.0.10"}, {"10.0.0.11", "nofwd.example.com", ""}, {"2001:db8::8", "victim.example.com", "2001:db8::9,2001:db8:0:1::8"},
                 {"10.9.1.1", "host_under.x", "10.9.1.1"}, {"10.0.0.12", vary(250, 'q') + ".net", "10.0.0.12"}, {"10.0.0.13", "h1.example.com", "10.0.0.1"},
                 {"10.0.0.1", "evil.example.com", "10.0.0.10"}, {"10.0.0.10", "evil2.example.com", "10.0.0.1"}, {"110.0.0.1", "evil3.example.com", "10.0.0.1,10.0.0.12"}, {"2001:db8::7", "evil4.example.com", "2001:db8::77"},
                 {"10.0.0.2", "h1.example.com.au", "10.0.0.2"}, {"10.0.0.33", "h1.example.co", "10.0.0.33"}, {"10.0.0.33", "", ""}, {"10.0.0.5", "H2.Example.com", "10.0.0.99,10.0.0.55,10.0.0.5"}, {"10.0.0.6", "evil5.example.com", "2001:db8::6,10.0.0.60,10.0.0.61"}, {"::1", "v6lo.example.com", "::1,127.0.0.1"}, {"2001:db8::6", "evil6.example.com", "10.0.0.6"}};
        for (size_t i = hosts.size(); i > 1; i--) std::swap(hosts[i - 1], hosts[(size_t)r.below((int)i)]);
        for (size_t i = 0; i < hosts.size(); i++)                    // one answer per address and per name in one run
            for (size_t j = hosts.size() - 1; j > i; j--)
                if (hosts[j].addr == hosts[i].addr || (!hosts[j].rev.empty() && ieq(hosts[j].rev, hosts[i].rev) && hosts[j].fwd != hosts[i].fwd)) hosts.erase(hosts.begin() + (long)j);
        if (p != 23) { int k = r.range(1, 6); while ((int)hosts.size() > k) hosts.erase(hosts.begin() + r.below((int)hosts.size())); }
        // opening: a few users
        int k = manyGroups || crowd || r.chance(1, 10) ? r.range(12, 18) : r.range(2, 6);
        for (int i = 0; i < k; i++) { connect(); if (r.chance(1, 2)) e("poll"); }
        e("poll"); e("poll");
        for (auto &c2 : cl) { if (r.chance(9, 10)) login(c2.first, false); if (r.chance(1, 3)) e("poll"); }
        e("poll"); e("poll");
        if (r.chance(1, 2)) e("poll");
    }
    int tot0() { int t = 0; for (int i = 0; i < NACT; i++) t += w[i]; return t; }
    // ------------------------------------------------------------ helpers
    Conn *conn(int id) { return W.byId(id); }
    bool usable(int id) { Conn *c = conn(id); return c && !c->serverClosed && !c->rst && !c->finQueued && !c->closedByClient; }
    std::vector<int> live() { std::vector<int> v; for (auto &p : cl) { Conn *c = conn(p.first); if (c ? usable(p.first) : true) v.push_back(p.first); } return v; }
    int fdOf(int id) { Conn *c = conn(id); return c && c->alive() ? c->fd : -1; }
    std::vector<int> users() { std::vector<int> v; for (auto &p : cl) if (usable(p.first)) { int f = fdOf(p.first); if (f >= 0 && f < MAXREAL && M.u[f].login == L_COMPLETE) v.push_back(p.first); } return v; }
    int user() { auto v = users(); return v.empty() ? -1 : r.pick(v); }
    int any() { auto v = live(); return v.empty() ? -1 : r.pick(v); }
    int modUser() { std::vector<int> v; for (int id : users()) { int f = fdOf(id); for (auto &g : M.g) if (g.mod == f && ieq(g.name, M.u[f].group)) v.push_back(id); } return v.empty() || r.chance(1, 4) ? user() : r.pick(v); }
    int adminUser() { for (int id : users()) if (checkAuth(fdOf(id))) return id; return -1; }
    std::string caseMix(std::string s) { if (r.chance(1, 5)) for (auto &c : s) if (isalpha((unsigned char)c) && r.chance(1, 2)) c ^= 32; return s; }
    // a value that is almost, but not quite, the given one
    std::string nearMiss(std::string s) {
        switch (r.below(8)) {
            case 0: return s + r.pick(std::vector<std::string>{"x", "1", " ", "z9", "'"});
            case 1: return s.empty() ? "x" : s.substr(0, s.size() - 1);
            case 2: for (auto &c : s) if (isalpha((unsigned char)c)) { c ^= 32; break; } return s;
            case 3: for (size_t i = s.size(); i-- > 0;) if (isalpha((unsigned char)s[i])) { s[i] ^= 32; break; } return s;
            case 4: return s.empty() ? "x" : s.substr(1);
            case 5: if (!s.empty()) s[(size_t)r.below((int)s.size())] = 'q'; return s;
            case 6: if (!s.empty()) s.insert(s.begin() + r.below((int)s.size()), r.pick(std::vector<char>{'a', ' ', '\\', '*', '\x7f', '\xe9'})); return s;
            default: return s + s;
        }
    }
    // an address pattern, usually derived from somebody's real address
    std::string opts(const char *flags) {   // a random set of options, joined or separate
        std::string all(flags), o; int k = r.range(1, 3);
        for (int i = 0; i < k; i++) { char c = all[(size_t)r.below((int)all.size())]; if (o.find(c) == std::string::npos || r.chance(1, 10)) { if (o.empty() || o.back() == ' ' || r.chance(1, 2)) { if (!o.empty() && o.back() != ' ') o += " "; o += "-"; } o += c; if (r.chance(1, 3)) o += " "; } }
        if (o.back() != ' ') o += " ";
        return o;
    }
    std::string sitePat() {
        auto v = users();
        if (v.empty() || r.chance(1, 6)) return r.pick(std::vector<std::string>{"*@h1.example.com", "usera@*", "*", "a*", "[ab]*", "joe@[10.0.0.3]", "*@\\[*", "", "*@*", "?*@h2*", "[!j]*", "[^j]*@*", "[a-m]*"});
        const User &x = M.u[fdOf(r.pick(v))];
        return patOf(x.loginid, x.nodeid);
    }
    std::string patOf(const std::string &l, const std::string &h) {   // a pattern that is about this address
        switch (r.below(11)) {
            case 0: case 1: return l + "@" + h;
            case 2: return "*@" + h;
            case 3: return l + "@*";
            case 4: return caseMix(l + "@" + h);
            case 5: return nearMiss(l) + "@" + h;
            case 6: return l + "@" + nearMiss(h);
            case 7: { std::string a = l + "@" + h; if (!a.empty()) a[(size_t)r.below((int)a.size())] = '?'; return a; }
            case 8: { std::string a = l + "@" + h; return a.substr(0, (size_t)r.below((int)a.size())) + "*"; }
            case 9: { std::string o; for (char c : l + "@" + h) { if (c == '[' || c == ']' || c == '*' || c == '?') o += '\\'; o += c; } return o; }
            default: { std::string a = l + "@*"; if (!l.empty()) { char c = l[0]; std::string set = r.pick(std::vector<std::string>{std::string() + c + "-" + (char)(c + 1), std::string() + (char)(c - 1) + "-" + c, std::string() + c + "-" + c, std::string() + (char)(c + 1) + "-" + (char)(c + 3), std::string() + (char)(c - 3) + "-" + (char)(c - 1), std::string("!") + c + "-" + (char)(c + 1), std::string("^") + (char)(c - 1) + "-" + c, std::string("0-9") + c, std::string() + c + "z"}); a = "[" + set + "]" + l.substr(1) + "@*"; } return a; }
        }
    }
    std::string fileText(const std::string &f) {
        std::string m; int k = r.chance(1, 8) ? r.range(8, 25) : r.below(5);
        for (int i = 0; i < k; i++) m += (r.chance(1, 3) ? f + " edition " + std::to_string(r.below(1000)) : r.pick(std::vector<std::string>{"", " ", "caf\xc3\xa9", "\xff\xfe", "a\tb\rc", "%U", "%", "%%U", "100% sure", "up since %U and %U", "cut \xe2\x82", vary((size_t)r.range(225, 262), 'f'), vary((size_t)r.range(225, 262), 'w') + "%U.", vary(600, 'o') + " tail"})) + "\n";
        if (r.chance(1, 5)) m += r.pick(std::vector<std::string>{"no end of line", "%", "x%U"});
        return m;
    }
    std::string listText(bool deny) {
        std::string d;
        for (int i = 0; i < 1 + r.below(3); i++) {
            if (deny) d += (r.chance(2, 3) ? sitePat() : r.pick(std::vector<std::string>{"*@h2.example.com", "joe@*", "userb@h1.example.com"})) + r.pick(std::vector<std::string>{" no-access", " go away please", " "}) + "\n";
            else if (r.chance(1, 2)) { const Host &h = r.pick(hosts); d += "user\t" + r.pick(logins) + "\t" + (h.rev.empty() ? "[" + h.addr + "]" : h.rev) + "\t" + r.pick(std::vector<std::string>{"perm_slowmsgs", "perm_deny", "perm_null"}) + "\n"; }
            else {
                std::string h = r.pick(hosts).addr; if (h.compare(0, 7, "::ffff:") == 0) h = h.substr(7);
                size_t q = h.rfind('.'); int mk = r.pick(std::vector<int>{255, 252, 248, 128, 0});
                d += "mask " + (q == std::string::npos ? "0.0.0.0 0.0.0.0" : h.substr(0, q + 1) + std::to_string(atoi(h.c_str() + q + 1) & (r.chance(5, 6) ? mk : 255)) + " 255.255.255." + std::to_string(mk)) + " " + r.pick(std::vector<std::string>{"perm_slowmsgs", "perm_deny"}) + "\n";
            }
        }
        return d;
    }
    // password for the user: the right one, almost the right one, or some other
    std::string somePw(const std::string &nick) {
        auto it = M.db.find(lo(nick) + ".password");
        if (it != M.db.end() && r.chance(2, 3)) return r.chance(1, cfg.prop == 14 || cfg.prop == 13 ? 3 : 6) ? nearMiss(it->second) : it->second;
        return r.pick(pws);
    }
    std::string pwOf(int id) { int f = id < 0 ? -1 : fdOf(id); return f < 0 ? r.pick(pws) : somePw(M.u[f].nick); }
    std::string fmtText() {
        static const std::vector<std::string> t = {"%s was here", "%s", "%s %s", "%d %s", "100%% %s", "%s %", "%", "%n %s", "%5s", "%s %90000d", "%-3x %s", "%s %.9000f", "%1$s", "%*d %s", "%%s", "%s%%%s", "%s % d", "%s %#x", "%hhn %s", "%s %ls", "%S %s", "%0200s", "%.0s %s", "%%%s", "no user", "%s %+d", "% s", "%'d %s", "%d  %s", "100% sure %s", "% d %s %d", "% %s", "% 5d %s", "%s 5% off", "% n %s"};
        return r.pick(t);
    }
    std::string someNick() {
        auto v = users();
        if (!v.empty() && r.chance(17, 20)) return caseMix(M.u[fdOf(r.pick(v))].nick);
        if (r.chance(1, 12)) return r.pick(std::vector<std::string>{"server", "Server", "admin", "", "nobody", vary(70, 'n'), "?", "server"});
        return caseMix(r.pick(nicks));
    }
    std::string someGroup() {
        if (r.chance(1, 30)) return r.pick(std::vector<std::string>{"~IDLE~", "~RESEDA~", "ICB", "", ".", "..", "@", "@nobody", "a b", "\xc3\xa9", vary(40, 'G')});
        if (r.chance(1, 12)) return "@" + someNick();
        std::string g = caseMix(r.pick(groups));
        int vis = cfg.prop == 12 ? r.below(4) : r.below(12);
        if (vis == 0) return "." + g;
        if (vis == 1) return ".." + g;
        return g;
    }
    std::string text(int max = 230) {
        static const std::vector<std::string> t = {"hello", "hi there", "caf\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80", "100% %s %d %n", "tab\there", "bad \xff\xfe\xc3 bytes", "a", " leading", "trail ", "/me waves", "x\x07y\x1b[31mz", "quote \" ' \\ %%"};
        int k = r.below(10);
        if (k < 6) return r.pick(t) + (r.chance(1, 2) ? std::to_string(r.below(100)) : "");
        if (k < 8) { std::string s = vary((size_t)r.range(1, max), (char)('a' + r.below(26))); for (auto &c : s) if (r.chance(1, 9)) c = ' '; return s; }
        if (k < 9) { std::string s; int n = r.range(1, max); while ((int)s.size() < n) s += r.pick(std::vector<std::string>{"\xc3\xa9", "\xe2\x82\xac", "z", "\xf0\x9f\x98\x80", "\xc3", "\xe0\x80"}); return s.substr(0, (size_t)n); }
        std::string s; int n = r.range(1, 60); for (int i = 0; i < n; i++) { char c = (char)r.range(1, 255); if (c == 1 && r.chance(3, 4)) c = 'q'; s += c; } return s;
    }
    void flush(int id) {
        Cl &c = cl[id]; Conn *k = conn(id);
        if (c.out.empty()) return;
        if (k && k->tls && !k->garbage && !k->hsDone) return;
        size_t n = c.out.size();
        if (r.chance(1, 6)) n = (size_t)r.range(1, (int)n);
        if (k && k->tls) stat(n < c.out.size() ? F_TLSFRAG : F_TLSPACK);
        e("send " + std::to_string(id) + " " + hex(c.out.substr(0, n)));
        c.out.erase(0, n);
        if (c.seg) e("dlv " + std::to_string(id) + " " + std::to_string(r.chance(1, 4) ? -1 : r.range(0, 20)));
    }
    void raw(int id, const std::string &frame) {
        if (id < 0) return;
        cl[id].out += frame;
        if (r.chance(flushPct, 100)) flush(id);
    }
    void pkt(int id, std::string p) {
        if (id < 0) return;
        if (p.size() > 253) p.resize(253);
        std::string f;
        int k = r.below(40);
        if (k == 0 && !p.empty()) { f += (char)p.size(); f += p; }                                   // client omits the final NUL
        else if (k == 1 && p.size() < 240) { std::string x = p; x += '\0'; x += "junk"; f += (char)x.size(); f += x; }
        else { f += (char)(p.size() + 1); f += p; f += '\0'; }
        raw(id, f);
    }
    void cmd(int id, const std::string &c, const std::string &a) {
        int k = r.below(60);
        if (k == 0) { pkt(id, "h" + c); return; }
        if (k == 1) { pkt(id, "h" + c + "\1" + a + "\1" + "extra"); return; }
        pkt(id, "h" + (k == 2 ? up(c) : c) + "\1" + a);
    }
    void serverCmd(int id, const std::string &c, const std::string &a) { if (r.chance(3, 10)) cmd(id, "m", "server " + c + (a.empty() ? "" : " " + a)); else cmd(id, c, a); }
    int connect() {
        int id = nextId++;
        const Host &h = r.pick(hosts);
        int tls = 0;
        if (cfg.ssl) { int k = r.below(20); if (k == 0) tls = 2; else if (k < (cfg.prop == 2 ? 15 : 7)) { int v = r.below(faults ? 30 : 24); tls = v < 5 ? 3 : v < 24 ? 1 : v < 27 ? 4 : v < 29 ? 5 : 1; } }
        std::string cap = r.chance(1, 12) ? std::to_string(tls ? r.range(100, 2500) : r.range(40, 400)) : "24576";
        if (h.fwd.empty() || h.rev.empty()) {} else if (("," + h.fwd + ",").find("," + h.addr + ",") == std::string::npos) stat(F_DNSLIE);
        e("conn " + std::to_string(id) + " " + std::to_string(tls) + " " + h.addr + " " + (h.rev.empty() ? "-" : h.rev) + " " + (h.fwd.empty() ? "-" : h.fwd) + " " + cap + " " + (r.chance(1, w[PEERERR] ? 12 : 400) ? "1" : "0"));
        cl[id];
        if (tls == 2) {
            stat(F_TLSGARBAGE);
            std::string g; int n = r.range(1, 200);
            if (r.chance(1, 3)) g = std::string("\x16\x03\x01\x00\x20", 5);
            for (int i = 0; i < n; i++) g += (char)r.below(256);
            e("raw " + std::to_string(id) + " " + hex(g));
        }
        if (faults && r.chance(1, 12)) { cl[id].seg = true; e("autorx " + std::to_string(id) + " 0"); }
        return id;
    }
    void login(int id, bool weird) {
        std::string nick, grp = someGroup(), pw, lg = r.pick(logins), how = "login";
        bool fresh = false;
        for (int t = 0; t < 6 && !fresh; t++) { nick = r.pick(nicks); fresh = findUser(nick) < 0; }
        if (r.chance(1, 10)) nick = someNick();
        if (r.chance(1, 3)) pw = r.pick(pws);
        if (r.chance(1, 3)) {                                       // somebody registered comes back
            std::vector<std::string> v; for (auto &p : M.db) if (p.first.size() > 5 && p.first.compare(p.first.size() - 5, 5, ".nick") == 0 && p.first.compare(0, 4, "bulk") && findUser(p.second) < 0) v.push_back(p.second);
            if (!v.empty()) { nick = r.pick(v); pw = r.chance(1, 3) ? "" : somePw(nick); }
            auto it = M.db.find(lo(nick) + ".home");
            if (it != M.db.end() && r.chance(1, 2)) { lg = it->second.substr(0, it->second.find('@')); if (r.chance(1, 4)) lg = nearMiss(lg); }
        }
        if (r.chance(1, 25)) nick = nearMiss(someNick());
        if (adminRuns && adminUser() < 0 && r.chance(1, 2)) { nick = r.pick(std::vector<std::string>{"admin", "ADMIN", "Admin"}); pw = r.chance(4, 5) ? SIM_ADMIN_PWD : (r.chance(1, 6) ? "" : nearMiss(SIM_ADMIN_PWD)); }
        else if (adminRuns && r.chance(1, 4)) pw = SIM_ADMIN_PWD;
        if (weird || r.chance(1, 9)) switch (r.below(12)) {
            case 0: nick = ""; break;
            case 1: nick = vary(r.range(12, 30), 'N'); break;
            case 2: lg = r.chance(1, 2) ? "" : r.chance(1, 2) ? nearMiss(lg) : r.pick(std::vector<std::string>{"bad id", "thirteenchars", "a-b", "\xc3\xa9", "joe!", "-joe", "joe.", "_", "twelvechars!", "a\xff", "abcdefghijklmnopqrstuvwxyz"}); break;
            case 3: how = "w"; grp = r.chance(1, 2) ? "" : someGroup(); break;
            case 4: how = "wg"; grp = r.chance(1, 5) ? "" : r.chance(1, 2) ? "@" + someNick() : someGroup(); break;
            case 5: how = r.pick(std::vector<std::string>{"", "LOGIN", "foo", "logi", "W", "WG"}); break;
            case 6: nick = r.pick(std::vector<std::string>{"admin", "server", "SERVER", "a b", "bad\xff", "tab\tx", "ADMIN"}); break;
            case 7: grp = r.pick(std::vector<std::string>{"@" + nick, "@server", "@", "@nobody", "~RESEDA~", "ICB", "..zz", "."}); break;
            case 8: pkt(id, "a" + lg + "\1" + nick + "\1" + grp); return;
            case 9: pkt(id, "a" + lg + "\1" + nick + "\1" + grp + "\1" + how); cl[id].login = true; return;
            case 10: grp = "@" + someNick(); break;
            case 11: grp = vary(r.range(9, 40), 'g'); break;
        }
        if (r.chance(1, 8)) nick = caseMix(nick);
        pkt(id, "a" + lg + "\1" + nick + "\1" + grp + "\1" + how + "\1" + pw + (r.chance(1, 8) ? "\1extra" : ""));
        cl[id].login = true;
    }
    void modeled(Act a);
    void scene();
    void act() {
        // deliver some held output
        for (auto &p : cl) {
            if (!usable(p.first)) continue;
            if (!p.second.out.empty() && r.chance(2, 5)) flush(p.first);
            if (p.second.seg && r.chance(1, 2)) e("dlv " + std::to_string(p.first) + " " + std::to_string(r.chance(1, 3) ? -1 : r.range(1, 40)));
        }
        auto lv = live(); auto us = users();
        if (us.size() < 2 && r.chance(1, 2)) {
            int pick = -1;
            for (int id : lv) if (!cl[id].login && cl[id].out.empty()) pick = id;
            if (pick < 0) pick = connect();
            login(pick, false); e("poll");
        } else {
            long k = (long)(r.next() % (uint64_t)tot); int a = 0;
            while (k >= w[a]) k -= w[a++];
            modeled((Act)a);
        }
        if (r.chance(pollPct, 100)) e("poll");
    }
    bool next(std::string &out) override {
        while (q.empty()) {
            if (done) return false;
            if (left-- <= 0) {
                done = true;
                for (auto &p : cl) while (!p.second.out.empty() && usable(p.first)) { size_t b = p.second.out.size(); flush(p.first); if (p.second.out.size() == b) break; }
                e("poll");
                break;
            }
            act();
        }
        out = q.front(); q.pop_front();
        return true;
    }
};

void Gen::modeled(Act a) {
    std::string S = " ";
    int u = user(), n = any();
    auto ids = [&](int id) { return std::to_string(id); };
    switch (a) {
        case CONNECT: { int lim = cfg.prop == 5 || cfg.prop == 18 || r.chance(1, 8) ? 24 : 9; if ((int)live().size() < lim) { int id = connect(); if (r.chance(2, 3)) login(id, false); } break; }
        case LOGIN: {
            std::vector<int> v; for (int id : live()) if (!cl[id].login) v.push_back(id);
            if (v.empty()) { if (n >= 0 && r.chance(1, 6)) login(n, true); else if ((int)live().size() < 12) { int id = connect(); login(id, r.chance(1, 4)); } }
            else login(r.pick(v), r.chance(1, 5));
            break; }
        case OPEN: { int k = r.chance(1, 6) ? r.range(2, 5) : 1; for (int i = 0; i < k; i++) pkt(r.chance(1, 25) ? n : u, "b" + text() + (r.chance(1, 40) ? "\1more" : "")); break; }
        case PRIV: cmd(u, "m", (u >= 0 && fdOf(u) >= 0 && r.chance(1, 10) ? std::string(M.u[fdOf(u)].nick) : someNick()) + " " + text()); break;
        case BEEP: cmd(u, "beep", someNick()); break;
        case GCHG: cmd(u, "g", someGroup()); break;
        case PASS: cmd(modUser(), "pass", r.chance(1, 6) ? "" : someNick()); break;
        case BOOT: { int m = modUser(); std::string t = someNick(); int f = m < 0 ? -1 : fdOf(m); if (f >= 0 && r.chance(3, 4)) { std::vector<std::string> v; for (int id : users()) if (ieq(M.u[fdOf(id)].group, M.u[f].group)) v.push_back(M.u[fdOf(id)].nick); if (!v.empty()) t = r.pick(v); } cmd(m, "boot", t + (r.chance(1, 3) ? " " + (r.chance(1, 3) ? "for cause" : r.chance(1, 4) ? text(40) : fmtText()) : "")); break; }
        case STATUS: {
            static const std::vector<std::string> o = {"r", "m", "c", "p", "i", "s", "v", "q", "n", "l", "# 2", "# 1", "# 0", "# 3", "b 1", "b 0", "b 5", "im 1", "im 0", "im 3", "name alpha", "name Beta", "name newnam", "name x", "idlebootmsg %s fell asleep", "?", "# 99", "b -1", "b x", "im 999", "zz", "#", "b", "im", "name", "name 1", "name ICB", "idlebootmsg", "idlebootmsg no user", "idlebootmsg %s %d", "b 35791395", "# -4", "R", "name long-name-here", "idlebootmsg " + vary(53, 'i')};
            std::string s; int k = r.chance(1, 3) ? r.range(2, 4) : 1;
            for (int i = 0; i < k; i++) s += (i ? " " : "") + (r.chance(4, 5) ? o[(size_t)r.below(25)] : r.pick(o));
            if (r.chance(1, 8)) s = r.pick(std::vector<std::string>{"b", "im", "b", "im", "#"}) + " " + r.pick(std::vector<std::string>{"1", "2", "59", "60", "61", "62", "119", "120", "121", "239", "240", "241", "1440", "10", "30", "-1", "00", "1x", "16", "17", "19", "20", "21"});
            if (r.chance(1, 12)) s = "idlebootmsg " + fmtText();
            if (cfg.prop == 19 && r.chance(2, 3)) s = r.pick(std::vector<std::string>{"b 1", "b 2", "b 0", "im 1", "im 2", "b 1 im 1", "im 5 b 3", "idlebootmsg %s zzz"});
            cmd(modUser(), "status", r.chance(1, 9) ? "" : s); break; }
        case TOPIC: cmd(r.chance(1, 2) ? modUser() : u, "topic", r.chance(1, 4) ? "" : text(60)); break;
        case INVITE: { int m = modUser(); std::string t, o(r.chance(1, 3) ? opts("qrsn") : r.pick(std::vector<std::string>{"", "", "", "-q ", "-r ", "-s ", "-n ", "-qr ", "-rs ", "-s -q ", "-z ", "-ns "}));
            if (o.find('s') != std::string::npos ? r.chance(5, 6) : r.chance(1, 10)) { t = sitePat(); if (r.chance(1, 3) && o.find('s') == std::string::npos) o += r.chance(1, 2) ? "-s " : "-r -s "; }
            else t = r.chance(1, 12) ? "" : r.chance(1, 15) ? nearMiss(someNick()) : someNick();
            if (r.chance(1, 60)) for (int i = 0; i < 52; i++) cmd(m, "invite", "-q " + std::string(o.find('s') != std::string::npos ? "-s " : "") + "inv" + std::to_string(i));
            cmd(m, "invite", o + t);
            if (m >= 0 && fdOf(m) >= 0 && r.chance(1, 3)) { int v = user(); cmd(v, "g", M.u[fdOf(m)].group); }   // somebody tries the door
            break; }
        case CANCEL: cmd(modUser(), "cancel", (r.chance(1, 3) ? opts("qrsn") : r.pick(std::vector<std::string>{"", "", "-q ", "-s ", "-n ", "-r ", "-sr ", "-x ", "-s -q ", "-nq "})) + (r.chance(1, 4) ? sitePat() : r.chance(1, 12) ? "" : someNick())); break;
        case TALK: cmd(modUser(), "talk", (r.chance(1, 4) ? opts("adrqn") : r.pick(std::vector<std::string>{"", "-a ", "-a ", "-q ", "-r ", "-d ", "-d ", "-ar ", "-x "})) + (r.chance(1, 12) ? "" : someNick())); break;
        case EXCLUDE: cmd(u, "exclude", someNick() + (r.chance(1, 8) ? "" : " " + text())); break;
        case WHO: cmd(u, "w", r.pick(std::vector<std::string>{"", "", "-g", "-s", ".", "?", "-s ", "-g ", "-S ", "-G ", "-gs ", "-s -g "}) + (r.chance(1, 2) ? "" : r.chance(1, 3) ? "@" + someNick() : someGroup())); break;
        case WHEREIS: cmd(u, "whereis", r.chance(1, 5) ? "" : someNick()); break;
        case NAME: cmd(u, "name", r.chance(1, 12) ? r.pick(std::vector<std::string>{"", "admin", "Server", "a b c", "bad\xff\x02", vary(30, 'W'), "ADMIN"}) : r.chance(1, 6) ? someNick() : caseMix(r.pick(nicks))); break;
        case HUSH: case NOTIFY: {
            bool h = a == HUSH;
            std::string opt = r.chance(1, 4) ? opts(h ? "posnq" : "snq") : h ? r.pick(std::vector<std::string>{"", "", "-p ", "-o ", "-q ", "-s ", "-n ", "-sp ", "-so ", "-z ", "-pp "}) : r.pick(std::vector<std::string>{"", "", "-q ", "-s ", "-n ", "-z "});
            std::string who = r.chance(1, 7) ? "" : opt.find('s') != std::string::npos || r.chance(1, 8) ? sitePat() : r.chance(1, 12) ? nearMiss(someNick()) : someNick();
            if (r.chance(1, 40) && u >= 0) { int lim = h ? 34 : 42; for (int i = 0; i < lim; i++) cmd(u, h ? "hush" : "notify", opt + "nick" + std::to_string(i)); }
            else cmd(u, h ? (r.chance(1, 4) ? "shush" : "hush") : "notify", opt + who);
            break; }
        case ECHOB: cmd(u, "echoback", r.pick(std::vector<std::string>{"on", "off", "verbose", "", "ON", "x"})); break;
        case NOBEEP: cmd(u, "nobeep", r.pick(std::vector<std::string>{"on", "off", "verbose", "", "Verbose", "x"})); break;
        case AWAY: cmd(u, "away", r.chance(1, 3) ? fmtText() : r.pick(std::vector<std::string>{"%s is out", "%s back soon", "", "no user", "%s %s", "%d %s", "100%% %s", "%s " + vary(200, 'w'), "%s %", "%s"})); break;
        case NOAWAY: cmd(u, "noaway", ""); break;
        case PING: cmd(u, "ping", r.chance(1, 5) ? "" : someNick()); break;
        case PONG: pkt(r.chance(1, 6) ? n : u, "m" + std::string(r.chance(1, 3) ? "x" : "")); break;
        case MISC: cmd(u, r.pick(std::vector<std::string>{"motd", "news", "v", "s_help", "info", "help", "?", "stats", "nosuch", "", "shuttime", "news"}), r.pick(std::vector<std::string>{"", "", "1", "3", "9", "../motd", vary(200, '9'), "reset", "x"})); break;
        case REG: {
            int k = r.below(10); std::string pw = pwOf(u);
            if (k < 6) serverCmd(u, "p", r.chance(1, 15) ? "" : pw);
            else if (k < 8) serverCmd(u, "cp", (r.chance(1, 8) ? "" : pw) + (r.chance(1, 8) ? "" : " " + r.pick(pws)));
            else if (k == 8) serverCmd(u, "secure", ""); else serverCmd(u, "nosecure", "");
            break; }
        case INFOSET: { std::string c = r.pick(std::vector<std::string>{"rname", "text", "addr", "phone", "email", "www"}); serverCmd(u, c, r.chance(1, 10) ? "" : r.pick(std::vector<std::string>{"short", "a|b|c", vary(r.range(20, 90), 'L'), "555-1212", text(), vary(r.range(190, 210), 'T')})); break; }
        case DELREG: serverCmd(u, "delete", r.chance(1, 8) ? "" : pwOf(u)); break;
        case WRITEM: {
            std::string to = someNick();
            if (r.chance(1, 2)) { std::vector<std::string> v; for (auto &p : M.db) if (p.first.size() > 5 && p.first.compare(p.first.size() - 5, 5, ".nick") == 0 && p.first.compare(0, 4, "bulk")) v.push_back(p.second); if (!v.empty()) to = r.pick(v); }
            int k = r.chance(1, 12) ? 22 : 1;
            for (int i = 0; i < k; i++) serverCmd(u, "write", r.chance(1, 20) ? to : to + " " + text());
            break; }
        case READM: serverCmd(u, "read", ""); break;
        case WHOIS: serverCmd(u, "whois", r.chance(1, 10) ? "" : someNick()); break;
        case DROP: { int ad = adminUser(); int who = ad >= 0 && r.chance(2, 3) ? ad : u; std::string t = someNick(); cmd(who, "drop", t + (r.chance(1, 2) ? " " + somePw(t) : "")); break; }
        case SHUTDOWN: { int ad = adminUser(); int who = ad >= 0 && r.chance(3, 4) ? ad : u; cmd(who, "shutdown", r.pick(std::vector<std::string>{"10", "5", "1", "6", "2", "-1", "0", "60", "-5", "4", "", "x", "61"})); break; }
        case WALL: { int ad = adminUser(); int who = ad >= 0 && r.chance(2, 3) ? ad : u; cmd(who, "wall", text()); break; }
        case LOGL: { int ad = adminUser(); int who = ad >= 0 && r.chance(2, 3) ? ad : u; cmd(who, r.chance(1, 5) ? "stats" : "log", r.pick(std::vector<std::string>{"", "0", "5", "-3", "x", "reset"})); break; }
        case SHUTTIME: cmd(u, "shuttime", ""); break;
        case STATS: cmd(u, "stats", r.chance(1, 4) ? "reset" : ""); break;
        case GARBAGE: {
            int id = r.chance(1, 2) ? n : u; int k = r.below(5);
            if (k == 0) pkt(id, std::string(1, (char)r.range(1, 255)) + text());
            else if (k == 1) { std::string s; int m = r.range(0, 253); for (int i = 0; i < m; i++) s += (char)r.below(256); std::string f; f += (char)(s.size() + 1); f += s; f += '\0'; raw(id, f); }
            else if (k == 2) pkt(id, std::string(1, "abchmndefgijkl"[r.below(14)]) + std::string((size_t)r.below(250), r.chance(1, 2) ? '\1' : 'z'));
            else if (k == 3) { std::string f; f += '\1'; f += '\0'; raw(id, f); }
            else { std::string s = std::string(1, "abhm"[r.below(4)]); int m = r.range(1, 25); for (int i = 0; i < m; i++) s += r.pick(std::vector<std::string>{"\1", "w", "g", "m", "login", " ", "-", "@", "1", "%s", "server"}); pkt(id, s); }
            break; }
        case BADFRAME: if (n >= 0) { raw(n, std::string(1, r.chance(1, 2) ? '\0' : '\xff') + "trailing bytes"); flush(n); } break;
        case LEAVE: {
            int id = r.chance(1, 3) ? n : u; if (id < 0 || !conn(id)) break;
            if (r.chance(2, 3)) { int g = 4; while (!cl[id].out.empty() && g--) flush(id); }
            int k = r.below(10);
            if (k < 4) { e("close " + ids(id)); } else if (k < 7) e("fin " + ids(id) + (r.chance(1, 2) ? " 1" : "")); else e("rst " + ids(id));
            if (r.chance(2, 3)) { e("poll"); if (r.chance(1, 2)) e("poll"); int c2 = connect(); login(c2, false); if (r.chance(1, 2)) e("poll"); }
            break; }
        case ADVS: e("adv " + std::to_string(r.pick(std::vector<int>{100, 400, 999, 1000, 1001, 2000, 5000, 9999, 10000, 11000}))); break;
        case ADVM: e("adv " + std::to_string(r.range(10, 130) * 1000)); e("poll"); break;
        case ADVL: {
            long k = r.pick(std::vector<long>{240, 299, 300, 301, 360, 599, 3599, 3600, 3601, 7200, 14401, 90000});
            if (M.die > 0 && r.chance(1, 2)) { long d = M.die - W.now(); k = d + r.pick(std::vector<long>{-301, -300, -299, -61, -60, -59, -1, 0, 1}); }
            else if (r.chance(1, 2)) { std::vector<long> c; for (auto &x : M.u) if (x.login == L_COMPLETE) { int gi = findGroup(x.group); if (gi >= 0) { c.push_back(M.g[gi].idleboot - (W.now() - x.t_recv)); c.push_back(M.g[gi].idlemod - (W.now() - x.t_recv)); } } for (auto &g : M.g) if (g.timeout > 1) c.push_back(g.timeout - W.now()); if (!c.empty()) k = r.pick(c) + r.range(-1, 2); }
            if (k < 0) k = 1;
            e("adv " + std::to_string(k * 1000)); e("poll");
            break; }
        case CLOCK: e("clock " + std::to_string(r.pick(std::vector<int>{-3600, -10, -1, 1, 60, 3600, 100000}))); break;
        case STALL: { int id = r.chance(1, 3) ? n : u; if (id < 0) break; e("autodrain " + ids(id) + " 0"); cl[id].stalled = true; if (r.chance(4, 5)) e("cap " + ids(id) + S + std::to_string(conn(id) && conn(id)->tls ? r.range(300, 3000) : r.range(20, 900))); break; }
        case UNSTALL: { for (auto &p : cl) if (p.second.stalled && usable(p.first) && r.chance(2, 3)) { if (r.chance(1, 2)) { e("autodrain " + ids(p.first) + " 1"); p.second.stalled = false; } else e("drain " + ids(p.first) + S + std::to_string(r.range(1, 400))); break; } break; }
        case SEG: { if (n < 0) break; e("autorx " + ids(n) + " 0"); cl[n].seg = true; break; }
        case UNSEG: { for (auto &p : cl) if (p.second.seg && r.chance(1, 2)) { e("autorx " + ids(p.first) + " 1"); p.second.seg = false; break; } break; }
        case SHORTW: if (n >= 0) e("shortw " + ids(n) + S + std::to_string(r.range(1, 6))); break;
        case AGAIN: if (n >= 0) e((r.chance(1, 2) ? "eagainw " : "eagainr ") + ids(n) + S + std::to_string(r.range(1, 4))); break;
        case FLUSH: for (auto &p : cl) if (usable(p.first)) flush(p.first); break;
        case INTR: if (r.chance(1, 3)) e("pollerr " + std::to_string(r.pick(std::vector<int>{ENOMEM, EINVAL, EFAULT})) + S + std::to_string(r.range(1, 4))); else e("eintr"); break;
        case ACCEPTERR: e("accepterr " + std::to_string(r.pick(std::vector<int>{ECONNABORTED, EMFILE, EINTR, ENOBUFS, EAGAIN})) + S + std::to_string(r.range(1, 3))); connect(); break;
        case ALLOC: { bool rd = r.chance(1, 3); e(std::string("alloc ") + (rd ? "2 " : "1 ") + std::to_string(rd ? r.range(0, 2) : r.range(0, 9))); break; }
        case SSLNEW: e("sslnew 1"); if (cfg.ssl) connect(); break;
        case DISKF: {
            if (dbArmed && r.chance(1, 2)) { dbArmed = false; e("dbread 0"); break; }
            static const std::vector<std::string> ops = {"open", "write", "fsync", "rename", "close", "write"};
            std::string op = r.pick(ops);
            int er = op == "write" && r.chance(1, 3) ? -1 : r.pick(std::vector<int>{EIO, ENOSPC, EDQUOT});
            if (op == "open") er = r.pick(std::vector<int>{EACCES, ENOSPC, EMFILE, EROFS});
            e("disk " + op + S + std::to_string(er) + S + std::to_string(r.chance(1, 2) ? 0 : r.below(12)) + S + std::to_string(r.chance(1, 2) ? 1 : r.range(2, 5)));
            if (u >= 0) serverCmd(u, r.pick(std::vector<std::string>{"p", "rname", "secure", "nosecure", "read"}), r.pick(pws));
            break; }
        case STARTF: {   // the server ends, and something is wrong when it is started again
            if (W.incarnation >= 3) break;
            if (u >= 0 && r.chance(1, 2)) { modeled(r.pick(std::vector<Act>{REG, INFOSET, WRITEM, OPEN, GCHG})); }
            if (r.chance(2, 3)) e("startbad " + startBad(r));
            if (r.chance(1, 2)) e("crash " + std::to_string(r.below(30)) + (r.chance(1, 4) ? " 1 " : " 0 ") + std::to_string(r.below(100000))); else e(std::string("sig ") + (r.chance(3, 4) ? "15" : "2"));
            e("poll"); e("poll"); connect();
            break; }
        case CRASH: {
            if (W.incarnation >= 3) break;
            if (u >= 0 && r.chance(3, 4)) { modeled(r.pick(std::vector<Act>{REG, INFOSET, WRITEM, READM, DELREG, REG})); }
            if (r.chance(1, 3)) { int k = r.range(1, 3); e("dbread " + std::to_string(k) + S + std::to_string(k == 1 ? r.pick(std::vector<int>{EIO, EMFILE, EACCES, ENOMEM, ENFILE}) : EIO) + S + std::to_string(r.below(100000))); dbArmed = true; }
            e("crash " + std::to_string(r.chance(1, 3) ? r.below(12) : r.below(60)) + S + (r.chance(1, 2) ? "1" : "0") + S + std::to_string(r.below(100000)));
            e("poll"); e("poll");
            break; }
        case EDITF: {   // the operator edits a text file, or the file goes bad
            std::string f = r.pick(std::vector<std::string>{"motd", "motd", "news." + std::to_string(r.range(1, 9)), "news." + std::to_string(r.range(1, 3)), "news.x", "icbd_help", "icbd.deny", "icbd.perms"});
            bool list = f == "icbd.deny" || f == "icbd.perms";
            if (!list && faults && r.chance(1, 3)) {
                std::string *c = W.disk.content(f); int k = r.below(3);
                e("filebad " + f + S + std::to_string(k) + S + std::to_string(k == 1 ? r.pick(std::vector<int>{EACCES, EMFILE, EIO, ENFILE, ENOMEM}) : r.pick(std::vector<int>{EIO, EISDIR, ENOMEM})) + S + std::to_string(r.below((c ? (int)c->size() : 0) + 2)));
            } else if (r.chance(1, 5)) e("edit " + f + " !");
            else e("edit " + f + S + hex(list ? listText(f == "icbd.deny") : fileText(f)));
            if (!list) { if (u >= 0 && r.chance(4, 5)) { cmd(u, f == "motd" ? "motd" : f == "icbd_help" ? "s_help" : "news", f[0] == 'n' && r.chance(1, 2) ? f.substr(5) : ""); if (r.chance(1, 2)) e("poll"); } else if (f == "motd") { int id = connect(); login(id, false); e("poll"); } }
            else { int id = connect(); login(id, false); e("poll"); e("poll"); }
            break; }
        case LOGF: {   // the log cannot be opened again
            if (r.chance(3, 4)) e("logopen " + std::to_string(r.pick(std::vector<int>{EMFILE, ENOSPC, EACCES, EIO, ENFILE, EROFS})) + S + std::to_string(r.range(1, 3)));
            int ad = adminUser();
            if (ad >= 0 && r.chance(1, 2)) { cmd(ad, "log", "0"); cmd(ad, "log", r.pick(std::vector<std::string>{"1", "3", "5", "x"})); if (r.chance(1, 2)) cmd(ad, "log", "4"); }
            else if (r.chance(2, 3)) { if (u >= 0 && r.chance(1, 2)) modeled(r.pick(std::vector<Act>{REG, OPEN, PRIV, WRITEM, WHO, GCHG})); if (r.chance(1, 2)) { int v = user(); if (v >= 0) { e((r.chance(1, 2) ? "eagainr " : "eagainw ") + ids(v) + " 2"); pkt(v, "m"); cmd(v, "w", "."); } } e((r.chance(1, 6) ? "sigat 10 " : "sigat 1 ") + std::to_string(r.chance(1, 2) ? r.below(12) : r.below(200))); e("poll"); if (r.chance(1, 3)) e("poll"); }
            else { e(r.chance(1, 6) ? "sig 10" : "sig 1"); e("poll"); if (r.chance(1, 2)) e("sig 1"); if (ad >= 0 && r.chance(1, 2)) cmd(ad, "log", "5"); }
            break; }
        case SIG:
            if (W.incarnation >= 3) break;
            if (r.chance(1, 2)) { if (u >= 0 && r.chance(3, 4)) { modeled(r.pick(std::vector<Act>{REG, INFOSET, WRITEM, READM, DELREG, OPEN})); } e("sigat " + std::string(r.chance(3, 4) ? "15 " : "2 ") + std::to_string(r.chance(1, 2) ? r.below(20) : r.below(120))); e("poll"); e("poll"); }
            else { e("sig " + std::string(r.chance(3, 4) ? "15" : "2")); e("poll"); }
            break;
        case POLLS: { int k = r.range(1, 5); for (int i = 0; i < k; i++) e("poll"); break; }
        case FLOOD: {
            if (u < 0) break;
            if (r.chance(2, 3)) cmd(u, "g", "1");
            int k = r.range(2, 6);
            for (int i = 0; i < k; i++) { pkt(u, "b" + text(20)); if (r.chance(1, 3)) e("poll"); if (r.chance(1, 8)) e("adv " + std::to_string(r.pick(std::vector<int>{300, 1000, 1500}))); }
            break; }
        case PEERERR: if (n >= 0) e("peererr " + ids(n) + (r.chance(1, 2) ? " 1" : " 0")); break;
        case RAWADMIN: if (u >= 0) { modeled(r.pick(std::vector<Act>{DROP, SHUTDOWN, WALL, LOGL})); if (r.chance(1, 4)) { int ad = adminUser(); if (ad < 0) cmd(u, "restart", ""); } } break;
        case IOERR: if (n >= 0) { e((r.chance(1, 2) ? "rderr " : "wrerr ") + ids(n) + S + std::to_string(r.pick(std::vector<int>{ETIMEDOUT, EHOSTUNREACH, ECONNRESET, EPIPE, ENETDOWN}))); if (r.chance(1, 2)) cmd(n, "w", ""); } break;
        case TLSBAD: { std::vector<int> v; for (int id : live()) if (conn(id) && conn(id)->tls && !conn(id)->garbage) v.push_back(id); if (v.empty()) break; int id = r.pick(v); if (r.chance(1, 2)) { cmd(id, "v", ""); flush(id); } if (r.chance(1, 3)) { e("tlskey " + ids(id) + (r.chance(2, 3) ? " 1" : " 0")); if (r.chance(1, 2)) { cmd(id, "v", ""); flush(id); } } else if (r.chance(1, 8)) e("tlsreneg " + ids(id)); else e("tlsbad " + ids(id) + S + std::to_string(r.below(100000))); break; }
        case RESTART: {
            int ad = adminUser();
            if (W.incarnation >= 4) break;
            if (ad < 0) {
                if (u >= 0 && r.chance(1, 3)) { cmd(u, "restart", r.chance(1, 3) ? "quiet" : ""); break; }
                int id = connect(); e("poll"); e("poll"); pkt(id, "aroot\1admin\1" + someGroup() + "\1login\1" SIM_ADMIN_PWD); cl[id].login = true; e("poll"); break;
            }
            if (faults && r.chance(1, 3)) { int k = r.range(1, 5); e("handover " + std::to_string(k) + S + std::to_string(k == 1 ? r.pick(std::vector<int>{EACCES, EMFILE, ENOSPC}) : k == 2 || k == 5 ? ENOSPC : k == 3 ? r.pick(std::vector<int>{EAGAIN, ENOMEM}) : r.pick(std::vector<int>{ENOENT, EACCES, ENOMEM})) + S + std::to_string(r.below(4000))); }
            if (faults && r.chance(1, 20)) e("crash " + std::to_string(r.below(40)) + (r.chance(1, 2) ? " 1 " : " 0 ") + std::to_string(r.below(100000)));
            if (r.chance(1, 3)) { int v = user(); cmd(v, r.pick(std::vector<std::string>{"v", "shuttime", "topic"}), ""); }
            if (r.chance(1, 4)) connect();
            cmd(ad, "restart", r.pick(std::vector<std::string>{"", "", "", "quiet", "quiet", "Quiet", "x"}));
            if (r.chance(4, 5)) { flush(ad); e("poll"); e("poll"); }
            for (int i = r.below(4); i > 0; i--) { int v = user(); if (v < 0) break; cmd(v, r.pick(std::vector<std::string>{"w", "hush", "notify", "status", "whereis", "invite", "talk", "stats", "topic", "shuttime"}), ""); }
            break; }
        case SOCKOPT: e("sockopt " + std::to_string(r.range(1, 3))); connect(); break;
        case USAGE: {                                                // option syntax, duplicates and contradictions
            static const std::vector<std::string> o = {"-q", "-n", "-s", "-p", "-o", "-a", "-d", "-r", "-", "--", "-qq", "-ns", "-sn", "-ad", "-nn", "-rr"};
            std::string a; int k = r.range(0, 3); for (int i = 0; i < k; i++) a += r.pick(o) + " ";
            if (r.chance(3, 4)) a += r.chance(1, 3) ? sitePat() : someNick();
            cmd(r.chance(1, 2) ? modUser() : u, r.pick(std::vector<std::string>{"invite", "cancel", "talk", "hush", "notify", "shush", "status", "exclude", "beep", "m", "ping", "pass", "boot", "g", "name", "w", "whereis"}), a); break; }
        case DRIP: {                                                 // one client reads in dribs and drabs for a long time
            if (n < 0 || !usable(n)) break;
            int k = r.range(2, 6); bool ag = r.chance(1, 3);
            e((ag ? "eagainw " : "shortw ") + ids(n) + S + std::to_string(r.range(6, 30)));
            for (int i = 0; i < k; i++) {
                if (r.chance(1, 2)) cmd(n, r.pick(std::vector<std::string>{"shuttime", "topic", "v", "nosuch", "whereis"}), ""); else { int v = user(), f = fdOf(n); if (f >= 0 && v >= 0) cmd(v, "m", M.u[f].nick + " " + text()); }
                int pl = r.range(1, 9); if (ag) e("eagainw " + ids(n) + S + std::to_string(r.range(1, 5)));
                while (pl--) e("poll");
            }
            break; }
        case SCENE: scene(); break;
        case DIRECTED: {
            // short scenarios that line up rarely coinciding conditions
            int k = r.below(10);
            if (k == 0 && u >= 0) { std::string me = M.u[fdOf(u)].nick; cmd(u, "m", me + " " + text()); cmd(u, "beep", me); cmd(u, "ping", me); }
            else if (k == 1) { int id = connect(); login(id, true); pkt(id, "b" + text()); cmd(id, "w", ""); }
            else if (k == 2 && u >= 0) { pkt(u, "b" + text()); cmd(u, "g", someGroup()); pkt(u, "b" + text()); }
            else if (k == 3 && u >= 0) { int m = modUser(); cmd(m, "status", "r"); cmd(u, "g", m >= 0 && fdOf(m) >= 0 ? M.u[fdOf(m)].group : "alpha"); }
            else if (k == 4 && u >= 0) { cmd(u, "notify", someNick()); int v = user(); if (v >= 0) e("close " + ids(v)); e("poll"); e("poll"); int id = connect(); login(id, false); }
            else if (k == 5 && u >= 0) { int v = user(); std::string t = someNick(); cmd(u, "ping", t); if (v >= 0) { pkt(v, "m"); } }
            else if (k == 6) { int m = modUser(); if (m >= 0) { cmd(m, "p", pws[0]); e("poll"); e("close " + ids(m)); e("poll"); e("poll"); if (r.chance(1, 2)) e("adv " + std::to_string(r.pick(std::vector<int>{1000, 299000, 301000}))); e("poll"); int id = connect(); login(id, false); } }
            else if (k == 7 && u >= 0) { std::string nk = M.u[fdOf(u)].nick; cmd(u, "name", r.pick(nicks)); int v = user(); cmd(v, "name", nk); cmd(v, "m", nk + " " + text()); }
            else if (k == 8 && u >= 0) { int id = connect(); pkt(id, "h" + r.pick(std::vector<std::string>{"m\1alice hi", "g\1alpha", "w\1", "read\1", "p\1secret", "drop\1alice", "status\1p"})); pkt(id, "bhello"); pkt(id, "m"); login(id, false); }
            else if (u >= 0) { int v = user(); cmd(u, "g", "alpha"); cmd(v, "g", "alpha"); cmd(u, "status", "c"); cmd(u, "talk", v >= 0 && fdOf(v) >= 0 ? M.u[fdOf(v)].nick : "x"); pkt(v, "b" + text()); }
            break; }
        default: break;
    }
}

// ---------------------------------------------------------------- scenes: several clients acting together, for conditions that rarely coincide
void Gen::scene() {
    typedef std::vector<std::string> V;
    auto ids = [&](int id) { return std::to_string(id); };
    auto push = [&](int id) { if (id < 0) return; for (int k = 0; k < 8 && !cl[id].out.empty(); k++) { size_t b = cl[id].out.size(); flush(id); if (cl[id].out.size() == b) break; } if (cl[id].seg) e("dlv " + ids(id) + " -1"); e("poll"); };
    auto say = [&](int id, const std::string &c, const std::string &a) { if (id < 0) return; cmd(id, c, a); push(id); };
    auto open = [&](int id, const std::string &t) { if (id < 0) return; pkt(id, "b" + t); push(id); };
    auto nickOf = [&](int id) { int f = id < 0 ? -1 : fdOf(id); return f < 0 ? std::string("nobody") : M.u[f].nick; };
    auto grpOf = [&](int id) { int f = id < 0 ? -1 : fdOf(id); return f < 0 ? std::string("alpha") : M.u[f].group; };
    auto addrOfId = [&](int id) { int f = id < 0 ? -1 : fdOf(id); return f < 0 ? std::string("*") : M.u[f].loginid + "@" + M.u[f].nodeid; };
    auto other = [&](int not1, int not2 = -1) { std::vector<int> v; for (int id : users()) if (id != not1 && id != not2) v.push_back(id); return v.empty() ? -1 : r.pick(v); };
    auto reg = [&](int id) { auto it = M.db.find(lo(nickOf(id)) + ".password"); std::string pw = it == M.db.end() ? r.pick(pws) : it->second; say(id, "p", pw); return pw; };
    auto come = [&](const std::string &nick, const std::string &grp, const std::string &pw, const std::string &lg) { int id = connect(); e("poll"); e("poll"); pkt(id, "a" + lg + "\1" + nick + "\1" + grp + "\1login\1" + pw); cl[id].login = true; push(id); e("poll"); return id; };
    auto go = [&](int id) { if (id >= 0) { e(r.pick(V{"close ", "close ", "rst ", "fin "}) + ids(id)); e("poll"); e("poll"); } };
    auto adv = [&](long s) { e("adv " + std::to_string(s * 1000 + (r.chance(1, 4) ? r.range(-999, 999) : 0))); e("poll"); };
    static const std::vector<std::vector<int>> pref = {{1}, {1, 2, 5, 6, 16}, {3, 4, 7, 9, 14, 20}, {5, 6, 7, 2, 20}, {1, 3, 9, 10, 15, 20}, {3, 4, 7, 10, 14, 16, 20, 20}, {2, 6, 2, 6, 18}, {5, 6, 10, 5, 16, 17, 17}, {10, 10, 9, 3, 17, 19}, {8, 11, 12, 1, 15}, {3, 12, 3, 12, 15}, {1, 8, 1, 8, 21},
                                   {11, 1, 11, 7, 14, 17}, {10, 9, 14, 19, 19}, {9, 9, 3, 10, 14}, {9, 4, 9, 4}, {4, 4, 9, 4}, {5, 7, 3, 6, 14, 15, 16, 17, 18, 20}, {9, 10, 11, 1, 14}, {13, 13, 15, 13}, {13, 13, 13, 3}, {5, 6, 7, 5, 17, 21}, {18, 18, 13, 10}, {1, 6, 7, 9, 14}, {3, 2, 6, 13, 15}, {22, 22, 22, 17, 13}, {1, 8, 16}};
    enum { NSCENE = 22 };
    int k = r.chance(2, 3) ? r.pick(pref[(size_t)(cfg.prop <= 26 ? cfg.prop : 0)]) : r.range(1, NSCENE);
    if (cfg.prop == 0) k = r.range(1, NSCENE);
    int m = modUser(), v = other(m), x = other(m, v);
    if (m < 0 || v < 0) return;
    std::string nm = nickOf(m), nv = nickOf(v), nx = nickOf(x);
    switch (k) {
        case 22: {   // who asked, who answered
            int a = m, b = v;
            for (int i = r.range(2, 7); i > 0; i--) switch (r.below(9)) {
                case 0: case 1: say(a, "ping", caseMix(nickOf(b))); break;
                case 2: e("adv " + std::to_string(r.pick(std::vector<int>{9, 10, 99, 250, 999, 1000, 1001, 7350, 61000}))); e("poll"); break;
                case 3: case 4: pkt(b, "m"); push(b); e("poll"); break;
                case 5: if (r.chance(1, 2)) a = other(b); else b = other(a); if (a < 0 || b < 0) return; break;
                case 6: say(r.chance(1, 2) ? a : b, r.pick(V{"whereis", "ping", "stats", "motd", "v"}), r.chance(1, 2) ? nickOf(r.chance(1, 2) ? a : b) : ""); break;
                case 7: if (r.chance(1, 3)) { int dead = r.chance(1, 2) ? a : b; std::string nk = nickOf(dead); go(dead); if (r.chance(1, 2)) come(r.chance(1, 2) ? nk : r.pick(nicks), r.pick(groups), "", r.pick(logins)); a = other(-1); b = other(a); if (a < 0 || b < 0) return; } break;
                default: say(r.chance(1, 2) ? a : b, "name", r.pick(nicks)); break;
            }
            break; }
        case 1: {   // the door of a closed group, with every kind of invitation
            std::string g = r.pick(groups); if (r.chance(1, 2)) say(m, "g", r.pick(V{"", ".", ".."}) + g); else g = grpOf(m);
            if (r.chance(3, 4)) say(m, "status", r.pick(V{"r", "r i", "r s", "i", "s", "r", "m i"}));
            if (r.chance(1, 2)) reg(v);
            bool site = r.chance(1, 2), ro = r.chance(1, 2);
            std::string a = addrOfId(v), who = site ? (r.chance(1, 2) ? a : r.chance(1, 2) ? "*" + a.substr(a.find('@') == std::string::npos ? 0 : a.find('@')) : r.chance(2, 3) ? patOf(a.substr(0, a.find('@')), a.find('@') == std::string::npos ? "" : a.substr(a.find('@') + 1)) : nearMiss(a)) : r.chance(4, 5) ? caseMix(nv) : nearMiss(nv);
            auto look = [&] { if (r.chance(1, 2)) say(v, "w", r.pick(V{"", "-g", "-s", g, "@" + nm})); if (r.chance(1, 3)) say(v, "whereis", nm); };
            look();
            say(m, "invite", std::string(r.chance(1, 4) ? "-q " : "") + (ro ? "-r " : "") + (site ? "-s " : "") + who);
            look();
            if (r.chance(1, 5)) reg(v);
            if (r.chance(1, 5)) say(v, "name", r.pick(nicks));
            if (r.chance(2, 3)) { say(v, "g", r.chance(1, 3) ? "@" + nm : g); if (r.chance(1, 2)) { say(v, "g", r.pick(groups)); say(v, "g", g); } }
            if (r.chance(1, 3)) { say(m, "cancel", std::string(r.chance(1, 4) ? "-q " : "") + (site ? "-s " : "") + who); say(v, "g", g); look(); }
            if (r.chance(1, 4)) { std::string lg = a.substr(0, a.find('@')); go(v); come(nv, g, r.pick(pws), lg); }
            break; }
        case 2: {   // a controlled group
            say(v, "g", grpOf(m)); if (r.chance(1, 2)) say(x, "g", grpOf(m));
            say(m, "status", r.pick(V{"c", "c", "c q", "q", "n"}));
            open(v, text(40));
            if (r.chance(1, 3)) reg(v);
            say(m, "talk", r.pick(V{"", "-a ", "-r ", "-q "}) + caseMix(nv));
            open(v, text(40)); if (r.chance(1, 3)) say(v, "exclude", nx + " " + text(20)); if (r.chance(1, 2)) open(x, text(20));
            if (r.chance(1, 3)) { say(v, "name", r.pick(nicks)); open(v, "renamed"); }
            if (r.chance(1, 2)) { say(m, "talk", r.pick(V{"-d ", "-d ", "-d -q "}) + nv); open(v, "after"); }
            if (r.chance(1, 4)) { say(m, "pass", nv); open(m, "was moderator"); open(v, "am moderator"); }
            if (r.chance(1, 4)) say(m, "talk", "");
            break; }
        case 3: {   // the moderator goes and comes back, or does not
            std::string pw = r.chance(4, 5) ? reg(m) : r.pick(pws), g = grpOf(m), lg = addrOfId(m); lg = lg.substr(0, lg.find('@'));
            if (r.chance(2, 3)) say(m, "status", r.pick(V{"r", "m", "c", "r i"}));
            say(v, "g", r.chance(1, 2) ? g : "@" + nm);
            if (r.chance(1, 4)) say(m, "secure", "");
            if (r.chance(1, 4)) say(v, "away", "out %s");
            if (r.chance(5, 6)) go(m); else say(m, "g", r.pick(groups));
            adv(r.pick(std::vector<int>{0, 1, 150, 298, 299, 300, 301, 302}));
            if (r.chance(1, 3)) { say(v, "w", g); }
            if (r.chance(1, 5)) { say(v, "name", nm); say(v, "p", pw); }
            if (r.chance(1, 4)) adv(r.pick(std::vector<int>{1, 2, 149, 300}));
            int b = come(r.chance(1, 6) ? caseMix(nm) : nm, r.chance(2, 3) ? g : r.pick(groups), r.chance(2, 3) ? pw : r.chance(1, 2) ? "" : nearMiss(pw), lg);
            if (r.chance(1, 3)) { say(b, "p", pw); }
            say(b, "status", r.pick(V{"", "p", "v"})); say(v, "topic", "mine?"); adv(1);
            break; }
        case 4: {   // mail
            std::string pw = reg(v); reg(m);
            int n = r.chance(1, 4) ? r.range(18, 22) : r.range(1, 3);
            for (int i = 0; i < n; i++) say(i % 3 == 2 && x >= 0 ? x : m, "write", caseMix(nv) + " " + text(100));
            if (r.chance(1, 3)) { std::string lg = addrOfId(v); lg = lg.substr(0, lg.find('@')); go(v); if (r.chance(1, 2)) say(m, "write", nv + " while away"); if (r.chance(1, 4)) e("crash 0 0 1"); v = come(nv, r.pick(groups), r.chance(3, 4) ? pw : "", lg); if (r.chance(1, 3)) say(v, "p", pw); }
            if (r.chance(1, 5)) { say(v, "delete", pw); say(v, "p", r.pick(pws)); }
            if (r.chance(3, 4)) say(v, "read", ""); if (r.chance(1, 2)) { say(m, "write", nv + " again"); say(v, "read", ""); say(v, "read", ""); }
            break; }
        case 5: {   // away
            say(v, "away", r.pick(V{"gone %s", "%s", "back soon %s %%", "plain", fmtText()}));
            for (int i = r.range(2, 6); i > 0; i--) { int s = r.chance(2, 3) || x < 0 ? m : x; say(s, r.pick(V{"m", "m", "m", "beep"}), nv + (r.chance(9, 10) ? " " + text(30) : "")); if (r.chance(1, 2)) adv(r.pick(std::vector<int>{1, 5, 9, 10, 11})); if (r.chance(1, 10)) { say(s, "name", r.pick(nicks)); } if (r.chance(1, 8)) say(v, "away", "again %s"); }
            if (r.chance(1, 4)) { std::string g = grpOf(m); go(m); m = come(r.chance(1, 2) ? nm : r.pick(nicks), g, "", r.pick(logins)); say(m, "m", nv + " hello"); }
            say(v, r.pick(V{"noaway", "noaway", "away"}), ""); say(m, "m", nv + " still there?");
            break; }
        case 6: {   // hush
            bool site = r.chance(1, 3); std::string o = r.pick(V{"", "-p ", "-o ", "-q ", "-p -q "}), who = site ? addrOfId(m) : caseMix(nm);
            if (r.chance(1, 2)) say(v, "g", grpOf(m));
            say(v, "hush", o + (site ? "-s " : "") + who);
            auto talk = [&] { open(m, text(20)); say(m, "m", nv + " psst"); if (r.chance(1, 2)) say(m, "beep", nv); if (r.chance(1, 3)) say(m, "exclude", nx + " others"); };
            talk();
            if (r.chance(1, 3)) { say(m, "name", r.pick(nicks)); talk(); }
            if (r.chance(1, 4)) say(v, "nobeep", r.pick(V{"on", "verbose", "off"})), say(m, "beep", nv);
            if (r.chance(1, 3)) say(v, "hush", "");
            if (r.chance(1, 2)) { say(v, "hush", (r.chance(2, 3) ? o : r.pick(V{"-p ", "-o ", ""})) + (site ? "-s " : "") + who); talk(); }
            break; }
        case 7: {   // notify
            bool site = r.chance(1, 3); std::string who = site ? addrOfId(x) : caseMix(nx), g = grpOf(x), lg = addrOfId(x); lg = lg.substr(0, lg.find('@'));
            say(v, "notify", r.pick(V{"", "", "-q "}) + (site ? "-s " : "-n ") + who); if (r.chance(1, 3)) say(m, "notify", nx);
            if (x >= 0 && r.chance(1, 3)) say(x, "status", r.pick(V{"i", "s", "v"}));
            if (x >= 0) { if (r.chance(1, 2)) { go(x); x = come(r.chance(3, 4) ? nx : r.pick(nicks), r.chance(1, 3) ? ".." + r.pick(groups) : g, "", lg); } else { say(x, "name", r.pick(nicks)); say(x, "name", nx); } }
            if (r.chance(1, 3)) say(v, "notify", "");
            if (r.chance(1, 3)) { say(v, "notify", (site ? "-s " : "-n ") + who); go(x); }
            break; }
        case 8: {   // a full group
            std::string g = r.chance(1, 2) ? grpOf(m) : r.pick(groups); if (grpOf(m) != g) say(m, "g", g);
            bool asked = r.chance(1, 2);
            if (asked) { say(m, "status", "r"); if (r.chance(1, 2)) say(m, "invite", r.pick(V{"", "-r ", "-q "}) + (nx == "nobody" ? nv : nx)); say(m, "invite", r.pick(V{"", "-s ", "-q "}) + nv); }
            if (asked || r.chance(1, 3)) say(m, "status", r.pick(V{"m", "c", "m", "p"}));
            say(m, "status", "# " + std::to_string(r.range(1, 3)));
            for (int id : users()) if (id != m && r.chance(2, 3)) say(id, "g", r.chance(1, 4) ? "@" + nm : g);
            if (r.chance(1, 2)) { if (r.chance(1, 2)) say(m, "boot", nv); else say(v, "g", r.pick(groups)); say(x, "g", g); say(v, "g", g); }
            if (r.chance(1, 3)) { say(m, "invite", nv); say(v, "g", g); }
            if (r.chance(1, 3)) { say(m, "status", r.pick(V{"# 0", "# 2", "# 4"})); say(v, "g", g); }
            if (r.chance(1, 3)) come(r.pick(nicks), g, "", r.pick(logins));
            break; }
        case 9: {   // a password's life
            std::string pw = reg(v), np = r.pick(V{"abcdefghijkl", "abcdefghijklm", "abcdefghijk", "new", "x y", "Secret", "0"}), g = grpOf(v), lg = addrOfId(v); lg = lg.substr(0, lg.find('@'));
            if (r.chance(2, 3)) say(v, "cp", (r.chance(3, 4) ? pw : nearMiss(pw)) + " " + np);
            if (r.chance(1, 3)) say(v, r.pick(V{"secure", "nosecure"}), "");
            if (r.chance(1, 3)) say(v, r.pick(V{"rname", "email", "phone", "addr", "text", "www"}), text(60));
            if (r.chance(1, 4)) say(m, "whois", nv);
            if (r.chance(1, 2)) say(v, "name", r.pick(nicks)), say(v, "name", nv); else { go(v); if (r.chance(1, 5)) { e("crash 0 0 1"); e("poll"); } v = come(nv, g, r.pick(V{"", pw, np, nearMiss(np), np.substr(0, 12), np.substr(0, 11)}), r.chance(2, 3) ? lg : r.pick(logins)); }
            say(v, "p", r.pick(V{pw, np, np.substr(0, 12), nearMiss(np), np + "z"}));
            if (r.chance(1, 4)) { say(v, "delete", r.pick(V{pw, np, np + "z", nearMiss(np)})); say(v, "rname", "who"); say(v, "write", nm + " hi"); say(m, "whois", nv); say(m, "write", nv + " hi"); }
            break; }
        case 10: {  // names
            std::string l = nv; while (l.size() < 12) l += (char)('a' + l.size() % 3);
            say(v, "name", l); say(m, "name", r.pick(V{l + "x", caseMix(l), l.substr(0, 11), l + "\xff", " " + l, l + " z", nv}));
            say(x, "m", l + " who are you"); say(x, "m", nv + " and you"); if (r.chance(1, 2)) come(r.pick(V{l + "tail", caseMix(l), nv, nm}), grpOf(v), "", r.pick(logins));
            say(v, "name", nv); say(x, "whereis", l); say(x, "beep", nv); open(v, "me again");
            break; }
        case 11: {  // a hidden group
            std::string g = r.pick(groups), st = r.pick(V{"i", "s", "i", "r i"}); say(m, "g", (st == "s" ? "." : "..") + g); if (r.chance(1, 2)) say(m, "status", st);
            if (r.chance(1, 2)) say(v, "notify", nm);
            auto look = [&](int id) { say(id, "w", r.pick(V{"", "-g", "-s", g, "." + g, "@" + nm, "-g " + g})); if (r.chance(1, 2)) say(id, "whereis", nm); };
            look(v); if (r.chance(1, 3)) look(m);
            if (r.chance(1, 3)) say(m, "topic", text(30));
            if (r.chance(1, 3)) { say(m, "name", r.pick(nicks)); say(m, "name", nm); }
            if (r.chance(1, 3)) come(r.pick(nicks), r.chance(1, 2) ? "@" + nm : g, "", r.pick(logins));
            if (r.chance(1, 3)) { say(x, "g", "@" + nm); look(v); }
            if (r.chance(1, 3)) { say(m, "status", "v"); look(v); }
            if (r.chance(1, 4)) { int id = connect(); e("poll"); e("poll"); pkt(id, "a" + r.pick(logins) + "\1" + r.pick(nicks) + "\1" + r.pick(V{"", g, "@" + nm}) + "\1" + r.pick(V{"w", "wg"}) + "\1"); cl[id].login = true; push(id); }
            break; }
        case 12: {  // passing and booting
            std::string g = grpOf(m); say(v, "g", g); if (r.chance(1, 2)) say(x, "g", g);
            if (r.chance(1, 2)) say(m, "status", r.pick(V{"r", "m", "c", "m"}));
            if (r.chance(1, 2)) { say(m, "pass", r.chance(4, 5) ? nv : nx); say(m, "topic", "no longer"); say(v, "topic", "now mine"); say(v, "boot", nm); say(m, "g", g); }
            else { say(m, "boot", nv + (r.chance(1, 2) ? " bye" : "")); say(v, "g", g); say(v, "boot", nm); open(v, "hey"); }
            if (r.chance(1, 3)) { say(m, "pass", ""); say(v, "pass", nm); say(m, "status", "p"); }
            if (r.chance(1, 3)) { say(m, "g", r.pick(groups)); say(v, "status", "v"); }
            say(x, "w", g);
            break; }
        case 13: {  // time limits
            std::string g = grpOf(m); say(v, "g", g); int b = r.range(1, 3), i = r.range(1, 3);
            say(m, "status", r.pick(V{"b " + std::to_string(b), "im " + std::to_string(i), "b " + std::to_string(b) + " im " + std::to_string(i)}));
            if (r.chance(1, 3)) say(m, "status", "idlebootmsg %s sleeps");
            if (r.chance(1, 4)) { int a = adminUser(); say(a, "shutdown", std::to_string(r.range(1, 8))); }
            for (int s = r.range(2, 6); s > 0; s--) { adv(r.pick(std::vector<int>{1, 30, 58, 59, 60, 61, 119, 120, 121, 179, 180, 181})); if (r.chance(1, 3)) { int z = r.chance(1, 2) ? v : m; if (r.chance(1, 2)) open(z, "awake"); else say(z, r.pick(V{"m", "w", "v", "beep", "away"}), nx); } }
            if (r.chance(1, 3)) say(v, "g", g);
            break; }
        case 14: {  // thrown off the server with a password, by somebody else
            std::string pw = reg(v), lg = addrOfId(v); lg = lg.substr(0, lg.find('@'));
            if (r.chance(1, 2)) say(v, "g", r.pick(V{"", ".", ".."}) + r.pick(groups));
            if (r.chance(1, 3)) say(v, "status", r.pick(V{"i", "s", "r", "q", "m"}));
            if (r.chance(2, 3)) say(m, "notify", r.pick(V{nv, caseMix(nv), "-s " + addrOfId(v)}));
            if (r.chance(1, 3)) say(x, "g", r.pick(V{"@" + nv, grpOf(v)}));
            if (r.chance(1, 3)) say(m, "drop", nv + " " + nearMiss(pw));
            int by = x >= 0 && r.chance(1, 2) ? x : m, ad = adminUser();
            if (ad >= 0 && r.chance(1, 3)) say(ad, "drop", caseMix(nv)); else say(by, "drop", caseMix(nv) + " " + pw);
            if (r.chance(1, 4)) open(v, "still here?");
            e("poll"); if (r.chance(1, 2)) say(m, "w", ""); if (r.chance(1, 2)) say(by, "m", nv + " gone?");
            int b = come(r.chance(1, 2) ? nv : r.pick(nicks), r.pick(groups), r.chance(1, 2) ? pw : "", r.chance(1, 2) ? lg : r.pick(logins)); open(b, "back"); adv(1); say(m, "notify", "");
            break; }
        case 15: {  // one moderator, several groups
            if (r.chance(1, 2)) reg(m);
            V gs; for (int i = r.range(2, 3); i > 0; i--) { std::string g = "own" + std::to_string(r.below(4)); gs.push_back(g); say(m, "g", r.pick(V{"", "", ".", ".."}) + g); int w2 = i == 2 ? v : x; if (w2 < 0) w2 = v; say(w2, "g", g); if (r.chance(1, 3)) say(m, "status", r.pick(V{"c", "r", "q", "m", "p", "im 1", "b 1"})); }
            if (r.chance(1, 3)) say(m, "g", gs[0]);
            if (r.chance(1, 4)) say(m, "name", r.pick(nicks));
            switch (r.below(5)) { case 0: case 1: go(m); break; case 2: adv(r.pick(std::vector<int>{61, 3601, 14401})); if (r.chance(1, 2)) open(v, "awake"); adv(1); break; case 3: say(m, "pass", nv); break; default: say(m, "g", r.pick(groups)); }
            if (r.chance(1, 2)) adv(r.pick(std::vector<int>{1, 299, 300, 301, 302}));
            for (auto &g : gs) if (r.chance(2, 3)) { int w2 = x >= 0 && r.chance(1, 2) ? x : v; say(w2, "g", g); say(w2, r.pick(V{"status", "topic", "w"}), r.pick(V{"", "p", "v", "mine"})); }
            if (r.chance(1, 2)) { int b = come(nm, r.pick(gs), r.pick(pws), r.pick(logins)); say(b, "p", r.pick(pws)); say(b, "topic", "again"); }
            break; }
        case 16: {  // pings that are answered late, twice or by somebody else
            std::string lg = r.pick(logins);
            say(m, "ping", caseMix(nv)); if (r.chance(1, 3)) say(x, "ping", nv);
            if (r.chance(1, 3)) adv(r.pick(std::vector<int>{1, 61}));
            if (r.chance(1, 2)) { int w2 = r.chance(1, 2) ? m : v; std::string nk = nickOf(w2); go(w2); int b = come(r.chance(1, 2) ? nk : r.pick(nicks), r.pick(groups), "", lg); if (w2 == v) v = b; else m = b; if (r.chance(1, 3)) say(m, "ping", nickOf(v)); }
            if (r.chance(1, 4)) say(m, "name", r.pick(nicks));
            pkt(v, "m"); push(v); if (r.chance(1, 2)) { pkt(v, "m"); push(v); } if (r.chance(1, 3)) { pkt(m, "m"); push(m); }
            break; }
        case 17: {  // who wrote last
            say(m, "m", nv + " hello"); if (r.chance(1, 3)) say(x, r.pick(V{"m", "beep"}), nv + " me too");
            if (r.chance(1, 3)) say(m, "g", ".." + r.pick(groups));
            if (r.chance(1, 3)) say(m, "name", r.pick(nicks));
            if (r.chance(1, 3)) { go(m); m = come(r.chance(1, 2) ? nm : r.pick(nicks), r.pick(groups), "", r.pick(logins)); }
            say(v, "whereis", ""); if (r.chance(1, 2)) { say(v, "m", nickOf(m) + " re"); say(m, "whereis", ""); }
            if (r.chance(1, 3)) { say(v, "status", "r"); say(x, "g", grpOf(v)); say(v, "whereis", ""); }
            break; }
        case 18: {  // much talk in group 1
            say(m, "g", "1"); say(v, "g", "1"); if (r.chance(1, 3)) say(m, "away", "busy %s");
            e("adv " + std::to_string(r.range(0, 1000)));
            for (int i = r.range(3, 9); i > 0; i--) { int w2 = r.chance(3, 4) ? m : v; std::string how = r.pick(V{"b", "b", "b", "b", "m", "x", "w"}); if (how == "b") pkt(w2, "b" + text(20)); else if (how == "m") cmd(w2, "m", nickOf(v) + " psst"); else if (how == "x") cmd(w2, "exclude", nx + " not you"); else cmd(w2, "w", "."); if (r.chance(2, 3)) push(w2); if (r.chance(1, 4)) e("adv " + std::to_string(r.pick(std::vector<int>{1, 400, 1000, 1000, 2000}))); if (r.chance(1, 12)) { say(m, "name", r.pick(nicks)); } if (r.chance(1, 12)) { go(m); m = come(nm, "1", "", r.pick(logins)); } }
            if (r.chance(1, 2)) { say(m, "g", "1"); open(m, "sorry"); }
            break; }
        case 20: {  // somebody who does not read is thrown off, and then nothing happens for a while
            std::string pw = reg(v); if (r.chance(1, 2)) say(m, "g", grpOf(v));
            if (usable(v)) { e("autodrain " + ids(v) + " 0"); cl[v].stalled = true; e("cap " + ids(v) + " " + std::to_string(conn(v) && conn(v)->tls ? r.range(300, 900) : r.range(20, 200))); }
            for (int i = r.range(2, 14); i > 0; i--) { if (r.chance(1, 2)) say(m, "m", nickOf(v) + " " + text(100)); else say(v, r.pick(V{"v", "w", "shuttime", "motd"}), ""); }
            int ad = adminUser();
            switch (r.below(4)) { case 0: if (ad >= 0) { say(ad, "drop", nickOf(v)); break; } case 1: case 2: say(m, "drop", nickOf(v) + " " + pw); break; default: if (usable(v)) e("fin " + ids(v)); }
            for (int i = r.range(3, 16); i > 0; i--) e("poll");
            break; }
        case 21: {  // a list that runs full
            int what = r.below(6), n = what < 2 ? r.range(31, 34) : what < 4 ? r.range(39, 42) : r.range(49, 52);
            std::string o = r.pick(V{"", "-q "}), g = grpOf(m), mine = what % 2 ? addrOfId(v) : nv;
            if (what >= 4) { if (r.chance(1, 2)) say(m, "status", what == 4 ? "r" : "c"); if (what == 4 && r.chance(1, 3)) o += r.pick(V{"-r ", "-s "}); }
            std::string pre = r.pick(V{"k", "K", "n"}); int at = r.pick(std::vector<int>{0, 0, 1, 2, n - 1});
            auto put = [&](const std::string &w2) {
                if (what < 2) say(m, "hush", o + (what % 2 ? "-s " : "") + w2);
                else if (what < 4) say(m, "notify", o + (what % 2 ? "-s " : "-n ") + w2);
                else say(m, what == 4 ? "invite" : "talk", o + w2);
            };
            for (int i = 0; i < n; i++) { std::string w2 = i == at ? mine : pre + std::to_string(i); if (what % 2 && what < 4 && i != at) w2 += "@x"; put(w2); if (r.chance(1, 40)) put(pre + std::to_string(r.below(i + 1))); if (r.chance(1, 30)) adv(1); }
            if (what < 2) say(m, "hush", ""); else if (what < 4) say(m, "notify", ""); else say(m, what == 4 ? "invite" : "talk", "");
            if (what < 2) { say(v, "m", nm + " do you hear me"); if (r.chance(1, 2)) put(r.chance(1, 2) ? mine : pre + "1"); say(v, "m", nm + " and now"); }
            else if (what < 4) { std::string lg = addrOfId(v); lg = lg.substr(0, lg.find('@')); go(v); v = come(nv, g, "", lg); }
            else { say(v, "g", g); open(v, "let me in"); if (what == 4) say(m, "cancel", r.pick(V{mine, pre + "1", pre + "0"})); say(m, what == 4 ? "invite" : "talk", ""); }
            break; }
        case 19: {  // becoming the administrator, or nearly, after login
            std::string key = SIM_ADMIN_PWD; if (r.chance(1, 2)) key = r.chance(1, 2) ? nearMiss(key) : key.substr(0, (size_t)r.range(1, (int)key.size() - 1)) + r.pick(V{"", "x", "xyz", "_pW"});
            int b = come(r.chance(1, 5) ? "admin" : r.pick(nicks), r.pick(groups), key, r.pick(logins));
            auto try1 = [&](int w2) { switch (r.below(4)) { case 0: say(w2, "drop", nx); break; case 1: say(w2, "wall", text(20)); break; case 2: say(w2, "shutdown", std::to_string(r.range(1, 60))); break; default: say(w2, "log", r.pick(V{"", "3", "4"})); } };
            if (r.chance(1, 3)) try1(b);
            say(b, "name", r.pick(V{"admin", "ADMIN", "Admin", "admin1", "admi", "admin "}));
            try1(b); if (r.chance(1, 3)) say(v, "name", "admin");
            if (r.chance(1, 3)) { say(b, "name", r.pick(nicks)); try1(b); }
            if (r.chance(1, 3)) { if (r.chance(1, 2)) go(b); say(v, "name", "ADMIN"); try1(v); say(v, "name", nv); }
            if (r.chance(1, 3)) { say(b, "p", r.pick(pws)); try1(b); }
            break; }
    }
}

StepSource *makeGen(const RunCfg &c) { return new Gen(c); }

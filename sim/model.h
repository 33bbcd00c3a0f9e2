// Executable reference model of the ICB server, as observed by clients.
#pragma once
#include "sim.h"
#include <algorithm>
#include <strings.h>

enum { MAXU = SIM_MAX_USERS, MAXREAL = SIM_MAX_USERS - 1, NS = SIM_NICKSERV, MAXG = 8 };
enum { L_FALSE = 0, L_PENDING = 1, L_COMPLETE = 2 };
enum { VISIBLE = 1, SECRET, SUPERSECRET };
enum { PUBLIC = 1, MODERATED, RESTRICTED, CONTROLLED };
enum { QUIET = 1, NORMAL, LOUD };
enum { PERM_DENY = 1, PERM_SLOW = 2 };

struct NL {                                  // bounded name list, newest first
    std::deque<std::string> v; size_t max = 50;
    void put(const std::string &s) {
        for (auto i = v.begin(); i != v.end(); ++i) if (!strcasecmp(i->c_str(), s.c_str())) { std::string k = *i; v.erase(i); v.push_front(k); return; }
        if (v.size() >= max) v.pop_back();
        v.push_front(s);
    }
    bool del(const std::string &s) {
        for (auto i = v.begin(); i != v.end(); ++i) if (!strcasecmp(i->c_str(), s.c_str())) { v.erase(i); return true; }
        return false;
    }
    bool present(const std::string &s) const { for (auto &x : v) if (!strcasecmp(x.c_str(), s.c_str())) return true; return false; }
    bool match(const std::string &s) const;
    void clear() { v.clear(); }
    size_t count() const { return v.size(); }
};

struct User {
    std::string loginid, nodeid, nick, password, realname, group, away;
    int lastaway = 0; time_t lastawaytime = 0;
    int login = 0, echoback = 0, nobeep = 0; long perms = 0;
    time_t t_on = 0, t_sent = 0, t_recv = 0, t_group = 0;
    int secure = 0;
    NL priN, pubN, priS, pubS, nN, sN;
    int kill = 0, lpriv = -1, pong = -1; uint64_t pingUs = 0; int recvCount = 0;
};
struct Group {
    std::string name, topic, missing, idlemsg;
    int vis = VISIBLE, control = PUBLIC, vol = LOUD, mod = -1, size = 0, idleboot = 3600, idlemod = 3600;
    long timeout = 0;
    NL nInv, nrInv, sInv, srInv, nTalk, nrTalk;
};
typedef std::map<std::string, std::string> Db;

struct Model {
    User u[MAXU]; Group g[MAXG];
    Db db;
    long die = -1; int shutNotify = 0;
    int isBooting = 0;
    struct { long signons = 0, boots = 0, drops = 0, idleboots = 0, idlemods = 0; time_t start = 0; } st;
    int logLevel = 0;
    bool live = false;
    // durability bookkeeping
    bool dbDirty = false;
    std::vector<Db> dbSince;                 // every value the database took since the last point known durable
    bool dbDown = false; std::string dbRaw;    // the database file cannot be read
    bool diskTrouble = false;                // a disk fault hit and no later flush has been confirmed
};
extern Model M;

// text utilities (independent implementations of the documented rules)
std::string up(std::string s);
std::string lo(std::string s);
std::string cstr(const std::string &s);                    // up to the first NUL
std::string filterText(const std::string &s, size_t len);
std::string filterNick(std::string s);
std::string filterGroup(std::string s);
std::string word(const std::string &s);
std::string tail(const std::string &s);
std::vector<std::string> splitFields(const std::string &s);
bool wild(const std::string &text, const std::string &pat);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string trunc(const std::string &s, size_t n);
static inline bool ieq(const std::string &a, const std::string &b) { return !strcasecmp(a.c_str(), b.c_str()); }

// context for tags
struct Ctx { Tags old; std::string oldWhy; Ctx(Tags t, const std::string &why); ~Ctx(); };
void addTags(Tags t);

// sending
void mError(int to, const std::string &s);
void mStatus(int to, const std::string &cat, const std::string &s);
void mImport(int to, const std::string &cat, const std::string &s);
void mOut(int to, const std::string &s);
void mEnd(int to);
void mExit(int to);
bool mPerson(int from, int to, const std::string &s);
void mStored(int to, const std::string &fromNick, const std::string &s);
void mOpen(int from, int to, const std::string &s);
void mBeep(int from, int to);
void mRaw(int to, const std::string &payload);

// tables
int findUser(const std::string &n);
int findGroup(const std::string &n);
int countIn(const std::string &g);
int checkMods(int n);
void clearUser(int n);
void clearGroup(int g);
int lostUser(int n);
int newestMember(const std::string &g, bool notAway);
std::string addrOf(const User &u);

// commands. f = fields, argc = number of fields
typedef std::vector<std::string> F;
void command(int n, const std::string &pkt);
int cChange(int n, int argc, const std::string &arg);
void cCancel(int n, const F &f); void cInvite(int n, const F &f); void cPass(int n, const F &f); void cBoot(int n, const F &f);
void cStatus(int n, const F &f); void cTopic(int n, const F &f); void cExclude(int n, const F &f); void cTalk(int n, const F &f);
void talkReport(int n, int gi);
void statusGroup(int how, int self, int n, const std::string &cat, const std::string &s);
void sendGroup(int n, const std::string &text);
void cWho(int n, int argc, const std::string &arg);
void cPersonal(int n, const F &f); void cBeep(int n, const F &f); void cInfo(int n, const F &f); void cMotd(int n); void cNews(int n, const F &f);
void cStats(int n, const F &f); void cShuttime(int n, const F &f); void cVersion(int n, const F &f);
void cHelp(int n); void cHush(int n, const F &f); void cName(int n, const F &f); void cNotify(int n, const F &f); void cEcho(int n, const F &f);
void cNobeep(int n, const F &f); void cPing(int n, const F &f); void cAway(int n, const F &f); void cNoaway(int n, const F &f);
void cDrop(int n, const F &f); void cShutdown(int n, const F &f); void cRestart(int n, const F &f); void cWall(int n, const F &f); void cLog(int n, const F &f);
bool cAuto(int n, const F &f);
// database and registration
int nickLookup(int n, const std::string &who, bool quiet);
int nickWrite(int n, const std::string &pw, bool verifyOnly);
void nickWriteTime(int n, bool off);
void regainMods(int n); void mailNotice(int n); void missingModNotice(int n);
int nickCheckMsg(int n);
int valUser(const std::string &who, const std::string &pw);
bool checkAuth(int n);

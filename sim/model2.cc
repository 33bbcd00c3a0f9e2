// Reference model, part 2: groups.
#include "model.h"

// wrapping of comma lists in listings (75 column lines)
struct Lines {
    int n; std::string line;
    explicit Lines(int n_) : n(n_) {}
    void add(const std::string &item);
    void flush() { if (!line.empty()) mOut(n, line); line.clear(); }
};
static const size_t MAXLINE = 75;
void Lines::add(const std::string &item) {
    if (item.size() + 1 >= MAXLINE) return;
    if (item.size() + line.size() + 1 >= MAXLINE) { mOut(n, line); line = item == ", " ? "" : item; }
    else line += item;
}

void statusGroup(int how, int self, int n, const std::string &cat, const std::string &s) {
    std::string grp = how == 1 ? M.u[n].group : M.g[n].name;
    for (int i = 0; i < MAXREAL; i++) {
        if (!ieq(M.u[i].group, grp) || grp.empty()) continue;
        if (how == 1 && i == n && !self) continue;
        mStatus(i, cat, s);
    }
}

// option parsing shared by invite and cancel: returns false on a usage error
static bool options(const std::string &arg, const char *ok, std::map<char, int> &o, std::string &who) {
    who = arg;
    while (!who.empty() && who[0] == '-') {
        std::string fl = word(who);
        for (size_t i = 1; i < fl.size(); i++) {
            char c = fl[i];
            if (!strchr(ok, c)) return false;
            char slot = c == 's' ? 'n' : c;
            if (o.count(slot)) return false;
            o[slot] = c == 's' ? 1 : c == 'n' ? 0 : 1;
        }
        who = tail(who);
    }
    return true;
}

void cCancel(int n, const F &f) {
    if (f.size() != 2) return;
    int gi = findGroup(M.u[n].group); Group &g = M.g[gi];
    bool restr = g.control == RESTRICTED, mod = g.mod == n;
    std::map<char, int> o; std::string who;
    if (!options(f[1], "qsn", o, who)) { mError(n, "Usage: cancel {-q} {-n nickname | -s address}"); return; }
    int mode = o.count('n') ? o['n'] : 0; bool quiet = o.count('q');
    if (mode == 1) who = up(who);
    if (!(restr && mod)) {
        if (!restr) mError(n, "The group isn't restricted.");
        if (!mod) mError(n, "You aren't the moderator.");
        return;
    }
    if (mode == 0 && (g.nInv.del(who) || g.nrInv.del(who))) {
        if (!quiet) mStatus(n, "FYI", who + " cancelled");
        if (findUser(who) < 0) mStatus(n, "Warning", who + " is not signed on");
    } else if (mode == 1 && (g.sInv.del(who) || g.srInv.del(who))) {
        if (!quiet) mStatus(n, "FYI", who + " cancelled");
    } else mStatus(n, "Warning", who + " was not invited");
}

static size_t listInvites(int n, Group &g) {
    auto part = [&](const char *head, NL &a, NL &r) {
        Lines L(n);
        bool first = true;
        for (auto &x : a.v) { L.add(first ? head : ", "); first = false; if (!x.empty()) L.add(x); }
        for (auto &x : r.v) { L.add(L.line.empty() ? head : ", "); if (!x.empty()) L.add(x + "(r)"); }
        L.flush();
    };
    part("Nicks invited: ", g.nInv, g.nrInv);
    part("Addrs invited: ", g.sInv, g.srInv);
    return g.nInv.count() + g.nrInv.count() + g.sInv.count() + g.srInv.count();
}

void cInvite(int n, const F &f) {
    if (f.size() != 2) return;
    int gi = findGroup(M.u[n].group); Group &g = M.g[gi];
    bool restr = g.control == RESTRICTED, mod = g.mod == n;
    std::map<char, int> o; std::string who;
    if (!options(f[1], "qsnr", o, who)) { mError(n, "Usage: invite {-q} {-r} {-n nickname | -s address}"); return; }
    if (who.empty()) {
        if (!restr) mStatus(n, "Invite", "Invite lists only function in restricted groups.");
        else if (listInvites(n, g) < 1) mStatus(n, "Invite", "No one on invite list");
        return;
    }
    int mode = o.count('n') ? o['n'] : 0; bool quiet = o.count('q'), r = o.count('r');
    if (mode == 1) who = up(who);
    if (restr && mod) {
        stat(P_INVITE);
        (mode == 0 ? (r ? g.nrInv : g.nInv) : (r ? g.srInv : g.sInv)).put(who);
        if (!quiet) mStatus(n, "FYI", who + (r ? " invited (registered only)" : " invited"));
    }
    if (mode == 0 && (!restr || mod)) {
        int d = findUser(who);
        if (d >= 0) { if (!M.u[d].realname.empty() || !r) mStatus(d, "RSVP", "You are invited to group " + M.u[n].group + " by " + M.u[n].nick); }
        else mStatus(n, "Warning", who + " is not signed on.");
    }
    if (mode == 1 && !restr) mError(n, "The group isn't restricted.");
    if (!mod && restr) mError(n, "You aren't the moderator.");
}

static void probe(int n, Group &g, const std::string &text) {
    if (!(g.mod > 0 && g.vol == LOUD)) return;
    User &m = M.u[g.mod];
    if (m.priS.match(up(addrOf(M.u[n]))) || m.priN.match(up(M.u[n].nick))) return;
    mStatus(g.mod, "Probe", text);
    m.lpriv = n;
}

int cChange(int n, int argc, const std::string &arg) {
    User &x = M.u[n];
    bool loginStatus = argc == 3;
    if (argc == 3) argc = 2;
    if (argc != 2) return -1;
    std::string a = arg;
    if (!a.empty() && a[0] == '@') {
        int t = findUser(a.substr(1));
        int tg = t < 0 ? -1 : findGroup(M.u[t].group);
        if (tg < 0 || M.g[tg].vis != VISIBLE) { mError(n, "User not found."); return -1; }
        return cChange(n, 2, M.u[t].group);
    }
    if (a.empty()) { mError(n, "Null groupnames are not allowed."); return -1; }
    std::string name; int vis;
    if (a[0] == '.' && a.size() > 1 && a[1] == '.') { name = trunc(a.substr(2), 8); vis = SUPERSECRET; }
    else if (a[0] == '.') { name = trunc(a.substr(1), 8); vis = SECRET; }
    else { name = trunc(a, 8); vis = VISIBLE; }
    if (name.empty()) { mError(n, "Group name too short."); return -1; }
    name = filterGroup(name);
    int gi = findGroup(name);
    if (gi < 0) {
        for (int i = 0; i < MAXG && gi < 0; i++) if (M.g[i].name.empty()) gi = i;
        if (gi < 0) { stat(P_GREFUSE); mError(n, "Too many groups!"); return -1; }
        Group &g = M.g[gi];
        g = Group(); g.name = name; g.vis = vis;
        if (ieq(name, "~RESEDA~")) { g.control = PUBLIC; g.vis = SECRET; g.vol = LOUD; g.idleboot = 3600; g.topic = "Boot-ees"; }
        else if (ieq(name, "~IDLE~")) { g.control = PUBLIC; g.vis = VISIBLE; g.vol = QUIET; g.idleboot = 0; g.topic = "Idlers"; }
        else if (name != "1") { g.control = MODERATED; g.mod = n; }
        else g.control = PUBLIC;
    }
    Group &g = M.g[gi];
    std::string addr = up(addrOf(x)); bool reg = !x.realname.empty();
    if (g.control == RESTRICTED) {
        bool mod = checkAuth(n) || g.mod == n;
        bool inv = g.nInv.present(x.nick) || g.sInv.match(addr) || (g.nrInv.present(x.nick) && reg) || (g.srInv.match(addr) && reg);
        if (!mod && !inv && !M.isBooting) {
            stat(P_RESTRICTREFUSE);
            mError(n, name + " is restricted.");
            probe(n, g, x.nick + " tried to enter the group.");
            return -1;
        }
    }
    int og = x.group.empty() ? -1 : findGroup(x.group);
    if (g.control != RESTRICTED && g.control != PUBLIC && g.size > 0) {
        int num = 0;
        for (int i = 0; i < MAXREAL; i++) if (ieq(M.u[i].group, g.name)) num++;
        if (num >= g.size && g.mod != n) {
            stat(P_SIZEREFUSE);
            probe(n, g, x.nick + " tried to enter the group, but it's full.");
            mError(n, "Group " + name + " is full.");
            return -1;
        }
    }
    if (gi == og) { mError(n, "You are already in that group!"); return -1; }
    stat(P_GCHANGE);
    x.group = g.name;
    if (g.vol != QUIET) statusGroup(1, 0, n, x.login < L_COMPLETE || loginStatus ? "Sign-on" : "Arrive", x.nick + " (" + addrOf(x) + ") entered group");
    mStatus(n, "Status", "You are now in group " + g.name + (g.mod == n ? " as moderator" : ""));
    x.t_group = W.now();
    if (og >= 0) {
        Group &o = M.g[og];
        if (countIn(o.name) > 0) {
            if (o.vol != QUIET) {
                statusGroup(2, 0, og, "Depart", x.nick + " (" + addrOf(x) + ") just left");
                if (o.mod == n) mImport(n, "Mod", "You are still mod of group " + o.name);
            }
        } else clearGroup(og);
    }
    return 0;
}

void cPass(int n, const F &f) {
    if (f.size() != 2) return;
    int gi = findGroup(M.u[n].group); Group &g = M.g[gi];
    if (!checkAuth(n) && g.mod != n) { mError(n, "You aren't the moderator."); return; }
    if (f[1].empty()) {
        g.mod = -1;
        if (g.vol != QUIET) statusGroup(1, 1, n, "Pass", M.u[n].nick + " just relinquished the mod.");
        if (g.control == CONTROLLED) {
            g.control = PUBLIC;
            if (g.vol != QUIET) statusGroup(1, 1, n, "Change", "Group is now public.");
        }
        return;
    }
    std::string w = word(f[1]);
    if (w.empty()) return;
    if (ieq(w, "server")) { mError(n, "Cannot pass to Server."); return; }
    int d = findUser(w);
    if (d < 0) { mError(n, w + " is not on!"); return; }
    stat(P_MODPASS);
    g.mod = d;
    mStatus(d, "Pass", M.u[n].nick + " just passed you moderation of group " + g.name);
    if (g.vol != QUIET) statusGroup(1, 1, n, "Pass", M.u[n].nick + " has passed moderation to " + M.u[d].nick);
}

// counts %s; -1 if any other conversion is present
int countFmt(const std::string &s) {
    int k = 0, bad = 0;
    for (size_t i = 0; i < s.size(); i++) if (s[i] == '%') { char c = i + 1 < s.size() ? s[i + 1] : 0; if (c == 's') k++; else if (c == '%') i++; else bad++; }
    return bad ? -1 : k;
}
static std::string applyFmt(const std::string &tpl, const std::string &w) {
    std::string o;
    for (size_t k = 0; k < tpl.size(); k++) {
        if (tpl[k] == '%' && k + 1 < tpl.size()) { if (tpl[k + 1] == 's') o += w; else o += '%'; k++; }
        else o += tpl[k];
    }
    return o;
}
extern const char *BADFMT, *ONEFMT;
const char *BADFMT = "Message can't include %d, %f and such. Use %% to quote a single %.";
const char *ONEFMT = "Message must contain (only) 1 %s for the username.";

void cBoot(int n, const F &f) {
    if (f.size() != 2) return;
    int gi = findGroup(M.u[n].group); Group &g = M.g[gi];
    if (!checkAuth(n) && g.mod != n) { mError(n, "You aren't the moderator."); return; }
    std::string w = word(f[1]), msg = tail(f[1]);
    int d = findUser(w);
    if (d < 0) { mStatus(n, "Warning", w + " is not signed on"); return; }
    if (ieq(w, "admin")) { mError(n, "You nobk! You can't boot the admin!"); mStatus(d, "Boot Attempt!", M.u[n].nick + " tried to boot you!"); return; }
    int k = 0;
    if (!msg.empty()) { k = countFmt(msg); if (k < 0) { mError(n, BADFMT); return; } if (k > 1) { mError(n, ONEFMT); return; } }
    if (findGroup(M.u[d].group) != gi) { mError(n, f[1] + " is not in your group"); return; }
    stat(P_BOOT);
    if (g.nInv.del(M.u[d].nick) || g.nrInv.del(M.u[d].nick)) mStatus(n, "FYI", M.u[d].nick + " cancelled");
    std::string t = msg.empty() ? M.u[d].nick + " was booted." : k == 0 ? M.u[d].nick + " " + msg : applyFmt(msg, M.u[d].nick);
    if (g.vol != QUIET) statusGroup(1, 1, n, "Boot", t);
    mStatus(d, "Boot", M.u[n].nick + " booted you.");
    M.isBooting = 1; cChange(d, 2, "~RESEDA~"); M.isBooting = 0;
    M.st.boots++;
}

static std::string hm(int secs) { int h = secs / 3600, m = secs % 3600 / 60; return fmt("%d hour%s, %d minute%s", h, h == 1 ? "" : "s", m, m == 1 ? "" : "s"); }
static std::string hmShort(int secs) { if (secs > 59 * 60) return hm(secs); return fmt("%d minute%s", secs / 60, secs / 60 == 1 ? "" : "s"); }

static int setName(int n, int gi, const std::string &name) {
    if (name.empty()) { mError(n, "New name may not be null."); return -1; }
    std::string nn = trunc(name, 8);
    if (nn == "1") { mError(n, "Cannot change name to group 1."); return -1; }
    int e = findGroup(nn);
    if (e >= 0 && e != gi) { mError(n, "That group already exists."); return -1; }
    std::string old = M.g[gi].name;
    for (int i = 0; i < MAXREAL; i++) if (ieq(M.u[i].group, old)) M.u[i].group = nn;
    M.g[gi].name = nn;
    return 0;
}

void cStatus(int n, const F &f) {
    if (f.size() != 2) return;
    int gi = findGroup(M.u[n].group); Group &g = M.g[gi];
    const std::string &me = M.u[n].nick;
    if (f[1].empty()) {
        const char *vis[] = {"", "Visible", "Secret", "Invisible"}, *con[] = {"", "Public", "Moderated", "Restricted", "Controlled"};
        std::string mod = g.mod >= 0 ? M.u[g.mod].nick : g.timeout == 0 ? "None" : g.missing;
        mOut(n, "Name: " + g.name + " Mod: " + mod + " (" + vis[g.vis] + " / " + con[g.control] + " / " + (g.vol == QUIET ? "Quiet" : g.vol == NORMAL ? "Normal" : "Loud") + ")");
        listInvites(n, g);
        { Lines L(n); bool first = true;
          for (auto &x : g.nTalk.v) { L.add(first ? "Nicks who can talk: " : ", "); first = false; L.add(x); }
          for (auto &x : g.nrTalk.v) { L.add(L.line.empty() ? "Nicks who can talk: " : ", "); L.add(x + "(r)"); }
          L.flush(); }
        mOut(n, g.size == 0 ? "Size: no limit" : fmt("Size: %d user%s limit", g.size, g.size == 1 ? "" : "s"));
        mOut(n, g.idleboot == 0 ? "Idle-Boot: no limit" : "Idle-Boot: " + hm(g.idleboot));
        if (!g.idlemsg.empty()) mOut(n, "Idle-Boot Message: " + g.idlemsg);
        if (g.control != PUBLIC) mOut(n, g.idlemod == 0 ? "Idle-Mod: no limit" : "Idle-Mod: " + hm(g.idlemod));
        return;
    }
    bool isMod = g.mod == n, hasMod = g.mod != -1 || g.timeout > 0;
    for (const char *s : {"1", "~IDLE~", "~RESEDA~"}) if (ieq(g.name, s)) { mError(n, std::string("Can't change group ") + s + "!"); return; }
    if (!isMod && hasMod && g.control != PUBLIC) { mError(n, "You aren't the moderator."); return; }
    stat(P_STATUS);
    std::string p = f[1];
    auto clearInv = [&] { g.nInv.clear(); g.nrInv.clear(); g.sInv.clear(); g.srInv.clear(); };
    while (!word(p).empty()) {
        std::string k = lo(word(p)), orig = word(p), out;
        if (!hasMod && (k == "r" || k == "m" || k == "c" || k == "b" || k == "im" || k == "q")) {
            std::string t = k == "r" ? "become restricted" : k == "m" ? "become moderated" : k == "c" ? "become controlled" : k == "b" ? "have idleboot changed" : k == "im" ? "have idlemod changed" : "be changed to quiet";
            mError(n, "Groups without a moderator cannot " + t + ".");
            if (k == "b" || k == "im") p = tail(p);
            p = tail(p);
            continue;
        }
        if (k == "r") {
            g.control = RESTRICTED; out = "Group is now restricted.";
            for (int i = 0; i < MAXU; i++) if (ieq(M.u[i].group, g.name)) {
                (M.u[i].realname.empty() ? g.nInv : g.nrInv).put(M.u[i].nick);
                if (g.mod > 0) mStatus(g.mod, "FYI", M.u[i].nick + " invited");
                mStatus(i, "FYI", "You are invited to group " + g.name + " by default.");
            }
        } else if (k == "m") { g.control = MODERATED; clearInv(); out = "Group is now moderated."; }
        else if (k == "c") { g.control = CONTROLLED; clearInv(); out = "Group is now controlled."; }
        else if (k == "p") { g.control = PUBLIC; clearInv(); out = me + " made group public."; }
        else if (k == "i") { g.vis = SUPERSECRET; out = me + " made group invisible."; }
        else if (k == "s") { g.vis = SECRET; out = me + " made group secret."; }
        else if (k == "v") { g.vis = VISIBLE; out = me + " made group visible."; }
        else if (k == "q") { g.vol = QUIET; out = me + " made group quiet."; }
        else if (k == "n") { g.vol = NORMAL; out = me + " made group normal."; }
        else if (k == "l") { g.vol = LOUD; out = me + " made group loud."; }
        else if (k == "#") {
            p = tail(p); std::string w = word(p); int v = atoi(w.c_str());
            if (w.empty() || v < 0 || v > MAXREAL) mError(n, fmt("Size must be between 0 and %d.", MAXREAL));
            else { g.size = v; out = v == 0 ? me + " removed group size limit." : fmt("%s made group limited to %d users.", me.c_str(), v); }
        } else if (k == "b") {
            p = tail(p); std::string w = word(p); int v = atoi(w.c_str());
            if (w.empty()) mError(n, "Idle-Boot must be specified in number of minutes (0=disabled).");
            else if (v < 0 || v > 0x7fffffff / 60) mError(n, "Idle-Boot must be > 0 (or 0 to disable).");
            else { g.idleboot = v * 60; out = v == 0 ? me + " disabled idle-boot." : me + " set idle-boot to " + hmShort(g.idleboot) + "."; }
        } else if (k == "idlebootmsg") {
            p = tail(p);
            if (p.empty() || p.size() > 54) mError(n, fmt("Idle-Boot message length must be between 1 and 54 (yours was %zu).", p.size()));
            else { int c = countFmt(p); if (c < 0) mError(n, BADFMT); else if (c != 1) mError(n, ONEFMT); else { g.idlemsg = p; mStatus(n, "Change", "Idle-boot msg: " + p); } }
            return;
        } else if (k == "im") {
            p = tail(p); std::string w = word(p); long v = atoi(w.c_str());
            if (w.empty()) mError(n, "Idle-Mod must be between 0 and 240.");
            else {
                if (v == 0) { mStatus(n, "Info", "Using maximum value allowed"); v = 240; }
                if (v < 1 || v > 240) mError(n, "Idle-Mod must be between 0 and 240.");
                else { g.idlemod = (int)v * 60; out = me + " set idle-mod to " + hmShort(g.idlemod) + "."; }
            }
        } else if (k == "name") {
            p = tail(p); std::string w = filterGroup(word(p));
            if (setName(n, gi, w) >= 0) out = me + " renamed group to " + w;
        } else if (k == "?") {
            for (const char *t : {"Table Of Status Commands", "r - restricted c - controlled m - moderated p - public", "i - invisible s - secret v - visible", "q - quiet n - normal l - loud", "name - change group name", "? -- this table", "# - change the number of allowed users", "b - change the idleboot setting", "idlebootmsg - change the idleboot message", "im - change the idlemod setting"}) mStatus(n, "Information", t);
        } else mError(n, "Option " + orig + " unknown.");
        if (!out.empty()) statusGroup(1, 1, n, "Change", out);
        p = tail(p);
    }
}

void cTopic(int n, const F &f) {
    if (f.size() != 2) return;
    int gi = findGroup(M.u[n].group); Group &g = M.g[gi];
    if (f[1].empty()) { mOut(n, g.topic.empty() ? "The topic is not set." : "The topic is: " + g.topic); return; }
    if (g.mod >= 0 && g.mod != n) { mError(n, "You aren't the moderator."); return; }
    if (g.name == "1" || g.name == "~IDLE~" || g.name == "~RESEDA~") { mError(n, "You can't change this group's topic."); return; }
    stat(P_TOPIC);
    g.topic = trunc(f[1], 32);
    if (g.vol != QUIET) statusGroup(1, 1, n, "Topic", M.u[n].nick + " changed the topic to \"" + g.topic + "\"");
}

void sendGroup(int n, const std::string &text) {
    User &x = M.u[n]; std::string one = up(addrOf(x)), two = up(x.nick);
    for (int i = 0; i < MAXREAL; i++) {
        if (i == n && !x.echoback) continue;
        User &y = M.u[i];
        if (!ieq(y.group, x.group) || y.login != L_COMPLETE) continue;
        if (y.pubS.match(one) || y.pubN.match(two)) { addTags(T(21)); stat(P_HUSHED); continue; }
        mOpen(n, i, text);
    }
}

void cExclude(int n, const F &f) {
    if (f.size() != 2) return;
    User &x = M.u[n];
    std::string text = tail(f[1]), w = word(f[1]);
    if (text.empty()) { mError(n, "Empty message."); return; }
    int gi = findGroup(x.group); Group &g = M.g[gi];
    if (g.vol == QUIET) { mError(n, "Open messages not permitted in quiet groups."); return; }
    if (g.control == CONTROLLED && g.mod != n && !g.nTalk.present(x.nick) && (x.realname.empty() || !g.nrTalk.present(x.nick))) {
        mError(n, "You do not have permission to send open messages in this group.");
        if (g.mod >= 0) mStatus(n, "INFO", "Use \"/m " + M.u[g.mod].nick + " may i talk?\" to request permission.");
        return;
    }
    stat(P_EXCLUDE);
    std::string one = up(addrOf(x)), two = up(x.nick);
    for (int i = 0; i < MAXREAL; i++) {
        if (i == n && !x.echoback) continue;
        User &y = M.u[i];
        if (!ieq(y.group, x.group) || y.login < L_COMPLETE || ieq(y.nick, w)) continue;
        if (y.pubS.match(one) || y.pubN.match(two)) continue;
        int j = findUser(w);
        mStatus(i, "Exclude", x.nick + "'s next message excludes " + (j > 0 ? M.u[j].nick : w) + ":");
        mOpen(n, i, text);
    }
}

static int talkDelete(const std::string &who, Group &g) {
    bool a = g.nTalk.del(who), b = g.nrTalk.del(who);
    if (!a && !b) return 0;
    int d = findUser(who);
    if (d >= 0 && (a || !M.u[d].realname.empty())) mStatus(d, "TALK", "You no longer can talk in group " + M.u[g.mod].group + " (no thanks to " + M.u[g.mod].nick + ")");
    return a + b;
}
void talkReport(int n, int gi) {
    Group &g = M.g[gi]; User &x = M.u[n];
    if (g.nTalk.present(x.nick) || (g.nrTalk.present(x.nick) && !x.realname.empty())) mOut(n, "Talk permission in: " + g.name);
}
void cTalk(int n, const F &f) {
    if (f.size() != 2) return;
    User &x = M.u[n];
    int gi = findGroup(x.group); Group &g = M.g[gi];
    std::map<char, int> o; std::string who;
    const char *usage = "Usage: talk {-a} {-q} {-r} {-d} nickname";
    if (!options(f[1], "qadr", o, who) || who.empty()) { mError(n, usage); return; }
    if (g.control == PUBLIC) { mError(n, "The group is public."); return; }
    if (g.mod != n) { mError(n, "You aren't the moderator."); return; }
    stat(P_TALK);
    bool quiet = o.count('q'), r = o.count('r');
    if (o.count('d')) {
        if (!talkDelete(who, g)) mError(n, who + " is not in talk list");
        else if (!quiet) mStatus(n, "FYI", who + " removed from talk list");
        return;
    }
    if (!o.count('a')) {
        for (auto &w : std::deque<std::string>(g.nTalk.v)) if (talkDelete(w, g) > 0 && !quiet) mStatus(n, "FYI", w + " removed from talk list");
        for (auto &w : std::deque<std::string>(g.nrTalk.v)) if (talkDelete(w, g) > 0 && !quiet) mStatus(n, "FYI", w + " removed from registered talk list");
    }
    (r ? g.nrTalk : g.nTalk).put(who);
    if (!quiet) mStatus(n, "FYI", who + (r ? " can talk (registered only)" : " can talk"));
    int d = findUser(who);
    if (d >= 0) { if (!M.u[d].realname.empty() || !r) mStatus(d, "TALK", "You can talk in group " + x.group + " (courtesy of " + x.nick + ")"); }
    else mStatus(n, "Warning", who + " is not signed on.");
}

// ---------------------------------------------------------------- who
static bool seesSecret(int n, Group &g) {
    User &x = M.u[n]; std::string one = up(addrOf(x)); bool reg = !x.realname.empty();
    return g.nInv.present(x.nick) || (g.nrInv.present(x.nick) && reg) || g.sInv.match(one) || (g.srInv.match(one) && reg) || x.nick == "ADMIN";
}
static void header(int n, int gi) {
    Group &g = M.g[gi];
    std::string mod = g.mod >= 0 ? M.u[g.mod].nick : g.timeout == 0 ? "(None)" : trunc(fmt("%s (%d)", g.missing.c_str(), (int)(g.timeout - W.now())), 18);
    std::string name = g.name;
    if (g.vis != VISIBLE) {
        if (findGroup(M.u[n].group) != gi && !seesSecret(n, g)) { name = "-SECRET-"; stat(P_SECRETHID); } else name = "*" + name + "*";
    }
    const char *ctl[] = {"*", "p", "m", "r", "c"}, *vol[] = {"*", "q", "n", "l"}, *vis[] = {"*", "v", "s", "i"};
    mOut(n, " ");
    mOut(n, fmt("Group: %-8s (%s%s%s) Mod: %-13s Topic: %s", name.c_str(), ctl[g.control], vis[g.vis], vol[g.vol], mod.c_str(), g.topic.empty() ? "(None)" : g.topic.c_str()));
}
static void members(int n, int gi, int flags) {
    Group &g = M.g[gi];
    std::vector<int> in;
    for (int i = 0; i < MAXU; i++) if (findGroup(M.u[i].group) == gi) in.push_back(i);
    if (flags == 1) return;
    if (flags == 2) {
        Lines L(n); L.add("    Members: ");
        for (size_t k = 0; k < in.size(); k++) { L.add(M.u[in[k]].nick); if (k + 1 < in.size()) L.add(", "); }
        L.flush();
        return;
    }
    if (in.size() >= 2) mRaw(n, "iwh");
    std::vector<int> s;
    for (int i : in) { size_t k = 0; while (k < s.size() && M.u[i].t_group > M.u[s[k]].t_group) k++; s.insert(s.begin() + (long)k, i); }
    for (int i : s) {
        User &y = M.u[i]; std::string st;
        auto add = [&](const char *t) { st += st.empty() ? "(" : ","; st += t; };
        if (y.realname.empty()) add("nr");
        if (!y.away.empty()) add("aw");
        if (y.secure) add("ssl");
        if (!st.empty()) st += ")";
        mRaw(n, trunc(fmt("iwl\1%s\1%s\1%ld\1%d\1%ld\1%s\1%s\1%s", g.mod == i ? "m" : " ", y.nick.c_str(), (long)(int)(W.now() - y.t_recv), 0, (long)(int)y.t_on, y.loginid.c_str(), y.nodeid.c_str(), st.c_str()), 254));
    }
}
static void whoOne(int n, int flags, const std::string &name) {
    int gi = findGroup(name);
    if (gi < 0) { mError(n, "The group " + name + " doesn't exist."); return; }
    header(n, gi); members(n, gi, flags);
}
void cWho(int n, int argc, const std::string &arg) {
    if (argc != 2) return;
    stat(P_WHO);
    std::string w = word(arg); int flags = 0;
    if (ieq(w, "-g")) flags = 1; else if (ieq(w, "-s")) flags = 2;
    else if (w == "?") { mOut(n, "Usage: /w {-g | -s} {groupname}"); return; }
    std::string t = flags ? word(tail(arg)) : w;
    if (!t.empty()) {
        std::string name = trunc(t, 8);
        if (arg[0] == '@') {
            int v = findUser(arg.substr(1)), gi = v < 0 ? -1 : findGroup(M.u[v].group);
            if (gi < 0 || (M.g[gi].vis == SUPERSECRET && M.u[n].nick != "ADMIN")) { mError(n, "User not found."); return; }
            name = M.u[v].group;
        }
        if (name == ".") name = M.u[n].group;
        whoOne(n, flags, name);
        return;
    }
    std::vector<int> gl;
    for (int i = 0; i < MAXG; i++) {
        Group &g = M.g[i];
        if (g.name.empty()) continue;
        if (g.vis == SUPERSECRET && !seesSecret(n, g) && findGroup(M.u[n].group) != i) { stat(P_SECRETHID); continue; }
        size_t k = 0; while (k < gl.size() && strcasecmp(g.name.c_str(), M.g[gl[k]].name.c_str()) > 0) k++;
        gl.insert(gl.begin() + (long)k, i);
    }
    for (int i : gl) whoOne(n, flags, M.g[i].name);
    int nu = 0, ng = 0;
    for (int i = 0; i < MAXREAL; i++) if (M.u[i].login > L_FALSE) nu++;
    for (auto &g : M.g) if (!g.name.empty() && (g.name != "ICB" || countIn("ICB") > 1)) ng++;
    mOut(n, nu == 0 ? "No users found." : fmt("Total: %d user%s in %d group%s", nu, nu > 1 ? "s" : "", ng, ng > 1 ? "s" : ""));
}

// C04 tunnel addresses, C05 identities and roles, C06 notifications, C07 loss and disconnection
#include "fix.h"
#include "crowd.h"
#include "model.h"
#include "race.h"

static Act A(Act::Kind k, int who, int a = 0, int b = 0) { return {k, who, a, b}; }

static ServerOptions optsOf(const std::vector<Transport> &t)
{
    ServerOptions o;
    for (Transport x : t)
        o.tls = o.tls || x == Tls || x == Wss;
    return o;
}
static ModelCheck *mk(const QString &name, std::vector<Transport> t, int cats, std::function<std::vector<Op>(const MState &)> al, int dq, int dt, int mem = 0, bool split = false)
{
    LockstepConfig c;
    c.transports = t;
    c.server = optsOf(t);
    c.categories = cats;
    c.split = split;
    return new ModelCheck(name, c, al, g_thorough ? dt : dq, mem);
}

// ---- C04 ----------------------------------------------------------------------------------------
// Live clients of one server by address; every allocation is compared with it.
struct AddressBook {
    Fix &f;
    Conn *srv;
    Transport t;
    QMap<int, Conn *> live;
    int u = 1000;
    AddressBook(Fix &x, Transport st, Transport ct) : f(x), srv(x.server(st, 1)), t(ct) {}
    int connect()
    {
        int a = -1, id = u++;
        Conn *c = f.client(t, id, 1, srv, &a);
        f.ctx.step();
        if (f.ctx.failed)
            return -1;
        if (a <= 0 || a >= 0xFFFF)
            f.ctx.fail("address:reserved", QString("tunnel address %1 assigned (%2 clients connected)").arg(a).arg(live.size()));
        else if (live.contains(a))
            f.ctx.fail("address:duplicate", QString("tunnel address %1 assigned while in use (%2 clients connected)").arg(a).arg(live.size()));
        live[a] = c;
        return a;
    }
    void disconnect(int a)
    {
        f.drop(live.take(a));
        f.settle();
        srv->take();
        srv->pending.clear();
    }
    // n clients register together and leave together
    void burst(int n)
    {
        std::vector<Conn *> c;
        int first = u;
        for (int k = 0; k < n; ++k)
            c.push_back(f.fresh(t, false));
        f.settle();
        for (Conn *x : c)
            x->request("TunnelProxy.RegisterClient", regClient(uuidOf(u++), uuidOf(1), "burst"));
        f.settle();
        QMap<int, int> got;
        QList<int> addrs;
        for (auto &e : srv->take()) {
            if (e.kind != Event::Notification || e.method != "TunnelProxy.ClientConnected")
                continue;
            int a = e.params.value("socketAddress").toInt();
            f.ctx.step();
            if (a <= 0 || a >= 0xFFFF)
                f.ctx.fail("address:reserved", QString("tunnel address %1 assigned (%2 clients connected)").arg(a).arg(live.size() + got.size()));
            else if (live.contains(a) || got.contains(a))
                f.ctx.fail("address:duplicate", QString("tunnel address %1 assigned while in use (%2 clients connected)").arg(a).arg(live.size() + got.size()));
            got[a]++;
            addrs << a;
        }
        if (addrs.size() != n)
            f.bad(QString("%1 clients registered, %2 announced").arg(n).arg(addrs.size()));
        // the ends of the block carry data to the right client
        if (!f.ctx.failed)
            for (int k : {0, n - 1}) {
                c[k]->take();
                f.works(c[k], srv, addrs[k], QString("address %1").arg(addrs[k]));
            }
        for (Conn *x : c)
            f.drop(x);
        f.settle();
        srv->take();
        srv->pending.clear();
        last = addrs.isEmpty() ? 0 : addrs.last();
        Q_UNUSED(first)
    }
    int last = 0;
    bool works(int a) { return f.works(live[a], srv, a, QString("address %1 (%2 clients)").arg(a).arg(live.size())); }
};

static void c04List(ListCheck &l, bool thorough)
{
    for (int n : {60, 105, 260})
        for (Transport t : {Tcp, Unix})
            l.add(QString("%1 clients at once on %2").arg(n).arg(transportName(t)), [=](Ctx &x) {
                Fix f(x);
                AddressBook b(f, Tcp, t);
                for (int k = 0; k < n && !x.failed; ++k)
                    b.connect();
                for (int a : b.live.keys())
                    if (!x.failed && (a % 16 == 1 || a > n - 3))
                        b.works(a);
                // leave every second one, come back
                for (int a : b.live.keys())
                    if (a % 2 && !x.failed)
                        b.disconnect(a);
                for (int k = 0; k < n / 2 && !x.failed; ++k)
                    b.connect();
                for (int a : b.live.keys())
                    if (!x.failed)
                        b.works(a);
            });
    // The whole 16 bit space: the first `held` clients stay, others come and go past the wrap; shortly before
    // the end of the space `endHeld` more clients stay, so that the search meets taken addresses on both sides.
    // (Nothing here relies on the order in which addresses are given out; it is merely the order that makes
    // the walk interesting on this implementation.)
    struct Walk {
        int held, endHeld;
    };
    std::vector<Walk> walks{{2, 3}, {1100, 3}};
    if (thorough)
        walks = {{0, 0}, {1, 1}, {2, 3}, {100, 3}, {130, 120}, {1100, 3}, {4200, 3}};
    for (const Walk &wk : walks) {
        l.add(QString("65600 clients come and go while the first %1 stay and %2 stay at the end of the space").arg(wk.held).arg(wk.endHeld), [=](Ctx &x) {
            Fix f(x);
            AddressBook b(f, Unix, Unix);
            for (int k = 0; k < wk.held && !x.failed; ++k)
                b.connect();
            int total = wk.held;
            while (total < 65400 - wk.endHeld && !x.failed) {
                b.burst(40);
                total += 40;
            }
            while (total < 65530 - wk.endHeld && !x.failed) {
                b.disconnect(b.connect());
                total++;
            }
            for (int k = 0; k < wk.endHeld + 5 && !x.failed; ++k)
                b.connect();
            for (int k = 0; k < 40 && !x.failed; ++k) {
                int a = b.connect();
                if (x.failed)
                    return;
                if (k % 4 == 0)
                    b.works(a);
                if (!x.failed)
                    b.disconnect(a);
            }
            for (int a : b.live.keys())
                if (!x.failed)
                    b.works(a);
        });
    }
}

static Check *makeC04()
{
    MultiCheck *m = new MultiCheck;
    auto al = [](const MState &s) {
        std::vector<Op> ops;
        for (int i = 0; i < s.n; ++i) {
            const MSlot &x = s.s[i];
            if (x.role == Gone)
                ops.push_back({OpOpen, i, 0, 0});
            else if (i < 2) {
                if (x.role == Fresh)
                    ops.push_back({OpRegServer, i, 1 + i, 0});
                ops.push_back({OpClose, i, 0, 0});
            } else {
                if (x.role == Fresh) {
                    ops.push_back({OpRegClient, i, 10 + i, 1});
                    if (i != 2)
                        ops.push_back({OpRegClient, i, 10 + i, 2});
                } else {
                    ops.push_back({OpClose, i, 0, 0});
                    if (x.role == Client)
                        ops.push_back({OpDisc, x.server, i, 0});
                }
            }
        }
        return ops;
    };
    ModelCheck *k = mk("two servers, three clients coming and going", {Tcp, Tcp, Tcp, Unix, Unix}, CatAddr | CatLeak | CatLivelock, al, 4, 6);
    k->prefix = {{OpOpen, 0, 0, 0}, {OpRegServer, 0, 1, 0}, {OpOpen, 1, 0, 0}, {OpRegServer, 1, 2, 0}, {OpOpen, 2, 0, 0}, {OpRegClient, 2, 12, 1}, {OpOpen, 3, 0, 0}, {OpRegClient, 3, 13, 1}};
    // every history ends with a probe of every tunnel that is up
    k->atEnd = [](Lockstep &ls) {
        for (int i = 0; i < ls.model.n; ++i)
            if (ls.model.s[i].role == Client && !ls.diverged && !ls.ctx.failed) {
                ls.cfg.categories = CatAll;
                ls.step({OpFrame, ls.model.s[i].server, i, 0}) && ls.step({OpData, i, 0, 0});
            }
    };
    m->add("histories", k);
    ListCheck *list = new ListCheck("up to 260 clients at once; the complete 16 bit address space walked through past its wrap with clients holding addresses at its start and its end", c04List);
    list->caseSeconds = 600;
    m->add("space", list);
    RaceConfig r;
    r.name = "three clients register at once, one leaves";
    r.transports = {Tcp, Tcp, Unix, Tcp};
    r.preServer = {1};
    r.invariants = RiUnique | RiLeak;
    r.maxPasses = g_thorough ? 5 : 2;
    r.scripts = {{A(Act::RegClient, 1, 11, 0), A(Act::Close, 1)}, {A(Act::RegClient, 2, 12, 0)}, {A(Act::RegClient, 3, 13, 0)}};
    m->add("race", new RaceCheck(r));
    m->caseSeconds = 600;
    return m;
}
static CheckReg rC04("C04", makeC04);

// ---- C05 ----------------------------------------------------------------------------------------
static std::vector<Op> roleAlphabet(const MState &s)
{
    std::vector<Op> ops;
    bool opened = false;
    for (int i = 0; i < s.n; ++i) {
        const MSlot &x = s.s[i];
        if (x.role == Gone) {
            if (!opened)
                ops.push_back({OpOpen, i, 0, 0});
            opened = true;
            continue;
        }
        ops.push_back({OpClose, i, 0, 0});
        if (x.role == Client)
            continue; // everything it says is payload
        for (int u = 1; u <= 2; ++u)
            ops.push_back({OpRegServer, i, u, 0});
        for (int u = 1; u <= 3; ++u)
            for (int sv = 1; sv <= 2; ++sv)
                ops.push_back({OpRegClient, i, u, sv});
        ops.push_back({OpNullUuid, i, 0, 0});
        ops.push_back({OpNullUuid, i, 1, 0});
        ops.push_back({OpNullUuid, i, 2, 0});
        if (x.role == Fresh)
            ops.push_back({OpDiscTo, i, 1, 0});
    }
    return ops;
}

static void c05List(ListCheck &l, bool)
{
    // the identity is the UUID, not its spelling
    struct Spell {
        const char *name;
        std::function<QString(QUuid)> f;
    };
    static const Spell spells[] = {{"braces", [](QUuid u) { return u.toString(); }},
                                   {"plain", [](QUuid u) { return u.toString(QUuid::WithoutBraces); }},
                                   {"upper case", [](QUuid u) { return u.toString().toUpper(); }},
                                   {"plain upper case", [](QUuid u) { return u.toString(QUuid::WithoutBraces).toUpper(); }}};
    for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b)
            for (int what = 0; what < 3; ++what)
                l.add(QString("uuid spelled with %1, then with %2, case %3").arg(spells[a].name, spells[b].name).arg(what), [=](Ctx &x) {
                    Fix f(x);
                    auto ask = [&](Conn *c, const QString &m, QVariantMap p) {
                        int id = c->request(m, p);
                        f.settle();
                        for (auto &e : c->take())
                            if (e.kind == Event::Response && e.id == id)
                                return e.error;
                        return QString("none");
                    };
                    Conn *s = f.fresh(Tcp);
                    QVariantMap p;
                    p["serverName"] = "s";
                    p["serverUuid"] = spells[a].f(uuidOf(1));
                    QString r = ask(s, "TunnelProxy.RegisterServer", p);
                    x.step();
                    if (r != "TunnelProxyErrorNoError")
                        return x.fail("uuid:spelling", "first registration: " + r);
                    Conn *c = f.fresh(Unix);
                    QVariantMap q;
                    QString want;
                    QString got;
                    if (what == 0) { // same server again
                        q["serverName"] = "t";
                        q["serverUuid"] = spells[b].f(uuidOf(1));
                        got = ask(c, "TunnelProxy.RegisterServer", q);
                        want = "TunnelProxyErrorAlreadyRegistered";
                    } else if (what == 1) { // found under the other spelling
                        q["clientName"] = "t";
                        q["clientUuid"] = uuidOf(2).toString();
                        q["serverUuid"] = spells[b].f(uuidOf(1));
                        got = ask(c, "TunnelProxy.RegisterClient", q);
                        want = "TunnelProxyErrorNoError";
                    } else { // a client under the server's identity
                        q["clientName"] = "t";
                        q["clientUuid"] = spells[b].f(uuidOf(1));
                        q["serverUuid"] = uuidOf(1).toString();
                        got = ask(c, "TunnelProxy.RegisterClient", q);
                        want = "TunnelProxyErrorAlreadyRegistered";
                    }
                    x.step();
                    if (got != want)
                        x.fail("uuid:spelling", "second registration: " + got + ", expected " + want);
                });
    // names do not matter: any name, including an empty one and another's, is accepted
    for (const char *n : {"", "same", "\xc3\xa9\xf0\x9f\x98\x80", "}\n{", "\"", "\\\\", "null"})
        l.add(QString("name %1").arg(n), [=](Ctx &x) {
            Fix f(x);
            Conn *s = f.fresh(Tcp);
            Conn *c = f.fresh(Tcp);
            if (!s->registerServer(uuidOf(1), QString::fromUtf8(n)) || !c->registerClient(uuidOf(2), uuidOf(1), QString::fromUtf8(n)))
                return x.fail("name:refused", "a name was refused");
            f.settle();
            bool seen = false;
            for (auto &e : s->take())
                seen = seen || (e.kind == Event::Notification && e.params.value("clientName").toString() == QString::fromUtf8(n));
            if (!seen)
                x.fail("name:altered", "the client's name did not reach the server");
            x.step();
        });
}

// what the monitor and the partners see of the first registration, before and after refusals of every kind
static void c05Refusals(ListCheck &l, bool)
{
    for (Transport t : kAll)
        for (Transport t2 : {Unix, t})
            for (int first = 0; first < 3; ++first)       // a server, a server with a client, a client
                for (int as = 0; as < 4; ++as)            // refused as: server, client of server 1, client of server 3, client of nobody
                    for (int who = 0; who < 3; ++who) {   // a new connection, another registered server, another registered client
                        if ((t == Ws || t == Wss) && (first < 2 || t2 == t))
                            continue; // (frames are no text)
                        l.add(QString("%1 on %2 and a refused %3 on %4, %5").arg(first == 0 ? "a server" : first == 1 ? "a server with a client" : "a client", transportName(t), as == 0 ? "server" : QString("client %1").arg(as), transportName(t2), who == 0 ? "not registered" : who == 1 ? "a server already" : "a client already"), [=](Ctx &x) {
                            Fix f(x, optsFor({t}));
                            Conn *srv = f.server(first == 2 ? Unix : t, 1);
                            Conn *other = f.server(Unix, 3);
                            int a = -1, b = -1;
                            Conn *c = f.client(first == 2 ? t : Unix, 2, 1, srv, &a);
                            Conn *c2 = f.client(Unix, 4, 3, other, &b);
                            Q_UNUSED(c2)
                            if (x.failed)
                                return;
                            auto report = [&](bool clients) {
                                QByteArray out;
                                for (const QVariant &v : f.w.monitor(true).value("tunnelProxyStatistic").toMap().value("tunnelConnections").toList()) {
                                    QVariantMap e = v.toMap();
                                    if (e.value("serverUuid").toUuid() != uuidOf(1))
                                        continue;
                                    out += e.value("name").toByteArray() + e.value("id").toByteArray() + e.value("address").toByteArray() + e.value("timestamp").toByteArray();
                                    if (clients)
                                        for (const QVariant &k : e.value("clientConnections").toList()) {
                                            QVariantMap q = k.toMap();
                                            out += "/" + q.value("name").toByteArray() + q.value("clientUuid").toByteArray() + q.value("id").toByteArray() + q.value("address").toByteArray() + q.value("timestamp").toByteArray() + "," + q.value("rxDataCount").toByteArray() + "," + q.value("txDataCount").toByteArray();
                                        }
                                }
                                return out;
                            };
                            if (first == 0) { // nobody there
                                f.drop(c);
                                f.settle();
                                srv->take();
                                srv->pending.clear();
                            }
                            QByteArray before = report(true);
                            f.w.advance(1500);
                            f.settle();
                            int victim = first == 2 ? 2 : 1;
                            for (int n = 0; n < 3 && !x.failed; ++n) {
                                Conn *o = f.fresh(t2);
                                if (who == 1 && !o->registerServer(uuidOf(20 + n), "registered"))
                                    return x.fail("refusal:setup", "no server");
                                if (who == 2 && !o->registerClient(uuidOf(20 + n), uuidOf(3), "registered"))
                                    return x.fail("refusal:setup", "no client");
                                other->take();
                                other->pending.clear();
                                if (who == 2) // data from now on, whatever it looks like
                                    o->sendRaw(ref::request(9, as == 0 ? "TunnelProxy.RegisterServer" : "TunnelProxy.RegisterClient", as == 0 ? regServer(uuidOf(victim), "offender") : regClient(uuidOf(victim), uuidOf(as == 1 ? 1 : as == 2 ? 3 : 50), "offender")));
                                else
                                    o->request(as == 0 ? "TunnelProxy.RegisterServer" : "TunnelProxy.RegisterClient", as == 0 ? regServer(uuidOf(victim), "offender") : regClient(uuidOf(victim), uuidOf(as == 1 ? 1 : as == 2 ? 3 : 50), "offender"));
                                f.settle();
                                x.step();
                                if (who != 2 && !o->closed())
                                    x.fail("refusal:open", "the refused connection is open");
                                QByteArray now = report(true);
                                if (now != before)
                                    x.fail("refusal:changed", "the monitor shows another first registration: " + QString(now) + ", before " + QString(before));
                                if (!srv->take().empty() || (first && c->closed()) || srv->closed())
                                    x.fail("refusal:noticed", "the first registration noticed the refusal");
                                f.drop(o);
                                f.settle();
                                other->take();
                                other->pending.clear();
                            }
                            if (x.failed || first == 0)
                                return;
                            c->sendRaw("up");
                            srv->sendFrame((quint16)a, "down");
                            f.settle();
                            auto up = srv->take();
                            auto down = c->take();
                            if (up.size() != 1 || up[0].kind != Event::Data || down.size() != 1 || down[0].kind != Event::Data)
                                x.fail("refusal:tunnel", "the tunnel of the first does not work any more");
                            f.drop(c);
                            f.settle();
                            int gone = 0;
                            for (auto &e : srv->take())
                                gone += e.kind == Event::Notification && e.method == "TunnelProxy.ClientDisconnected" && e.params.value("socketAddress").toInt() == a;
                            if (gone != 1)
                                x.fail("refusal:gone", "the client's end is not reported");
                        });
                    }
}

static Check *makeC05()
{
    MultiCheck *m = new MultiCheck;
    m->add("refusals", new ListCheck("a server, a server with a client or a client on every transport; three refused registrations under its UUID as server or client, by new and by registered connections: the monitor's report of it, its tunnel and notifications are as before", c05Refusals));
    const int cats = CatResp | CatClose | CatLivelock;
    m->add("tcp", mk("every order of registrations as server or client under three identities", {Tcp, Tcp, Tcp}, cats, roleAlphabet, 6, 8));
    m->add("unix", mk("the same", {Unix, Unix, Unix}, cats, roleAlphabet, 5, 7));
    m->add("tls", mk("the same", {Tls, Unix, Tls}, cats, roleAlphabet, 3, 5));
    // a registered pair is the start state, so that deep histories around it are covered
    ModelCheck *deep = mk("around a registered server with a client", {Tcp, Unix, Tcp, Tcp}, cats, roleAlphabet, 3, 5);
    deep->prefix = {{OpOpen, 0, 0, 0}, {OpRegServer, 0, 1, 0}, {OpOpen, 1, 0, 0}, {OpRegClient, 1, 3, 1}};
    m->add("around a pair", deep);
    std::vector<std::vector<std::vector<Act>>> sets = {
        {{A(Act::RegServer, 0, 1)}, {A(Act::RegServer, 1, 1)}, {A(Act::RegServer, 2, 1)}},
        {{A(Act::RegServer, 0, 1), A(Act::Close, 0)}, {A(Act::RegServer, 1, 1), A(Act::Close, 1)}, {A(Act::RegServer, 2, 1)}},
        {{A(Act::RegServer, 0, 1)}, {A(Act::RegClient, 1, 2, 0)}, {A(Act::RegClient, 2, 2, 0)}},
        {{A(Act::RegServer, 0, 1), A(Act::Close, 0)}, {A(Act::RegClient, 1, 2, 0), A(Act::Close, 1)}, {A(Act::RegClient, 2, 2, 0)}},
    };
    for (auto &sc : sets)
        for (auto t : {std::vector<Transport>{Tcp, Tcp, Tcp}, std::vector<Transport>{Unix, Tcp, Unix}}) {
            RaceConfig r;
            r.name = "simultaneous registrations under one identity";
            r.transports = t;
            r.invariants = RiUnique | RiMonitor | RiResp;
            r.maxPasses = g_thorough ? 5 : 3;
            r.scripts = sc;
            m->add("race", new RaceCheck(r));
        }
    addSlowRaces(m, RiUnique | RiMonitor | RiResp);
    m->add("identities", new ListCheck("all pairs of spellings of one UUID; a set of names", c05List));
    m->add("crowds", crowd(LookIds));
    return m;
}
static CheckReg rC05("C05", makeC05);

// ---- C06 ----------------------------------------------------------------------------------------
static std::vector<Op> comeAndGo(const MState &s)
{
    std::vector<Op> ops;
    for (int i = 0; i < s.n; ++i) {
        const MSlot &x = s.s[i];
        if (x.role == Gone) {
            ops.push_back({OpOpen, i, 0, 0});
        } else if (i < 2) {
            if (x.role == Fresh)
                ops.push_back({OpRegServer, i, 1 + i, 0});
            ops.push_back({OpClose, i, 0, 0});
            if (x.role == Server) {
                for (int c = 2; c < s.n; ++c)
                    if (s.s[c].addr >= 0)
                        ops.push_back({OpDisc, i, c, 0});
                ops.push_back({OpDiscTo, i, 0, 0});
                ops.push_back({OpDiscTo, i, 0xFFFF, 0});
            }
        } else {
            if (x.role == Fresh)
                for (int sv = 1; sv <= 2; ++sv)
                    ops.push_back({OpRegClient, i, 10 + i, sv});
            ops.push_back({OpClose, i, 0, 0});
            if (x.role == Client)
                ops.push_back({OpData, i, 2, 0});
        }
    }
    return ops;
}
static std::vector<Op> pairPrefix()
{
    return {{OpOpen, 0, 0, 0}, {OpRegServer, 0, 1, 0}, {OpOpen, 2, 0, 0}, {OpRegClient, 2, 12, 1}};
}
static void addComeAndGo(MultiCheck *m, int cats)
{
    struct V {
        const char *n;
        std::vector<Transport> t;
        int q, th;
        bool split;
        bool ipv6;
    };
    for (const V &v : {V{"tcp", {Tcp, Tcp, Tcp, Tcp}, 5, 7, false, false}, V{"unix", {Unix, Unix, Unix, Unix}, 5, 7, false, false}, V{"mixed", {Tcp, Unix, Ws, Tcp}, 4, 6, false, false}, V{"tls", {Tls, Unix, Tls, Wss}, 3, 5, false, false}, V{"bytewise", {Tcp, Tcp, Unix, Tcp}, 3, 5, true, false}, V{"ipv6", {Tcp, Tcp, Tcp, Ws}, 3, 5, false, true}}) {
        ModelCheck *k = mk("two servers, two clients coming and going, disconnect requests", v.t, cats, comeAndGo, v.q, v.th, 0, v.split);
        k->prefix = pairPrefix();
        k->cfg.server.ipv6 = v.ipv6;
        m->add(v.n, k);
    }
}
static void addRaces(MultiCheck *m, int inv)
{
    for (auto t : {std::vector<Transport>{Tcp, Tcp, Tcp, Tcp}, std::vector<Transport>{Unix, Unix, Unix, Unix}, std::vector<Transport>{Tcp, Unix, Ws, Tcp}}) {
        RaceConfig r;
        r.transports = t;
        r.preServer = {1, -1, -1, -1};
        r.preClient = {{-1, -1}, {11, 0}, {12, 0}, {-1, -1}};
        r.invariants = inv;
        r.maxPasses = g_thorough ? 4 : 2;
        r.name = "a client leaves while the server disconnects it and another registers and leaves";
        r.scripts = {{A(Act::Close, 1)}, {A(Act::Disc, 0, 1), A(Act::Disc, 0, 1)}, {A(Act::RegClient, 3, 13, 0), A(Act::Close, 3)}};
        m->add("race leave/disconnect/register", new RaceCheck(r));
        r.name = "the server goes while clients send, leave and register";
        r.scripts = {{A(Act::Close, 0)}, {A(Act::Data, 1, 0), A(Act::Close, 1)}, {A(Act::RegClient, 3, 13, 0)}, {A(Act::Data, 2, 1)}};
        m->add("race server loss", new RaceCheck(r));
        r.name = "the server disconnects both clients while one sends and one leaves";
        r.scripts = {{A(Act::Frame, 0, 1, 0), A(Act::Disc, 0, 1), A(Act::Disc, 0, 2)}, {A(Act::Data, 1, 0)}, {A(Act::Close, 2)}};
        m->add("race disconnect both", new RaceCheck(r));
        r.name = "a client comes back under its identity while the old connection goes";
        r.scripts = {{A(Act::Close, 1)}, {A(Act::RegClient, 3, 11, 0)}, {A(Act::Disc, 0, 2)}};
        m->add("race come back", new RaceCheck(r));
    }
}

static Check *makeC06()
{
    MultiCheck *m = new MultiCheck;
    addComeAndGo(m, CatNote | CatLivelock);
    addRaces(m, RiNotifyOnce);
    addSlowRaces(m, RiNotifyOnce);
    ListCheck *l = new ListCheck("clients come and go N times under one identity; every notification carries a fresh, matching address; order against data", [](ListCheck &l, bool thorough) {
        for (Transport t : kAll)
            l.add(QString("one identity comes and goes, on %1").arg(transportName(t)), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                Conn *srv = f.server(Unix, 1);
                int n = thorough ? 300 : 40;
                for (int k = 0; k < n && !x.failed; ++k) {
                    int a = -1;
                    Conn *c = f.client(t, 11, 1, srv, &a);
                    if (x.failed)
                        return;
                    if (k % 2)
                        c->sendRaw("bye");
                    if (t == Tls || t == Wss || t == Ws)
                        f.settle();
                    if (k % 3 == 0 && t != Tls && t != Wss) {
                        QVariantMap p = discParams(a);
                        srv->request("TunnelProxy.DisconnectClient", p);
                    } else {
                        f.drop(c);
                    }
                    f.settle();
                    x.step();
                    int gone = 0;
                    bool dataAfter = false;
                    for (auto &e : srv->take()) {
                        if (e.kind == Event::Notification) {
                            gone += e.method == "TunnelProxy.ClientDisconnected" && e.params.value("socketAddress").toInt() == a;
                            if (e.method != "TunnelProxy.ClientDisconnected")
                                x.fail("notification:stray", "unexpected " + e.method);
                        } else if (e.kind == Event::Data) {
                            dataAfter = dataAfter || gone;
                        }
                    }
                    srv->pending.clear();
                    if (gone != 1)
                        x.fail("notification:count", QString("round %1: the server was told %2 times that the client left").arg(k).arg(gone));
                    if (dataAfter)
                        x.fail("notification:order", QString("round %1: data after the disconnect notification").arg(k));
                }
            });
        for (Transport t : kAll)
            for (int kind = 0; kind < 2; ++kind)
                l.add(QString("names of %1 of clients on %2").arg(kind ? "every kind" : "every length").arg(transportName(t)), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    Conn *srv = f.server(Unix, 1);
                    QStringList names;
                    if (kind == 0) {
                        for (int n : {0, 1, 2, 15, 16, 17, 29, 30, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 9000, 9900})
                            names << QString(n, 'x');
                    } else {
                        names << " " << "  " << " a" << "a " << "  a  b  " << "\t" << "\ta\t" << "\n" << "a\nb\n" << "\r\n" << "null" << "true" << "0" << "{}" << "[]" << "\"" << "\\" << "%1" << "%s%n" << "<b>a</b>" << "&amp;" << "a/b" << "../x" << "A" << "a";
                        for (ushort u = 1; u < 0x100; ++u)
                            names << QString("a") + QChar(u) + QString("b") << QString(QChar(u));
                        names << QString::fromUtf8("\xe2\x82\xac") << QString::fromUtf8("e\xcc\x81") << QString::fromUtf8("\xc3\xa9") << QString::fromUtf8("\xf0\x9f\x98\x80") << QString::fromUtf8("\xe2\x80\xa8") << QString::fromUtf8("\xef\xbb\xbf a") << QString::fromUtf8("\xef\xbf\xbd");
                    }
                    for (int i = 0; i < names.size() && !x.failed; ++i) {
                        Conn *c = f.fresh(t);
                        if (!c->registerClient(uuidOf(100 + i % 50), uuidOf(1), names[i]))
                            return x.fail("notification:name", QString("name %1 is refused").arg(i));
                        x.step();
                        int n = 0;
                        for (auto &e : srv->take())
                            if (e.kind == Event::Notification && e.method == "TunnelProxy.ClientConnected") {
                                n++;
                                if (e.params.value("clientName").toString() != names[i] || e.params.value("clientUuid").toString() != uuidOf(100 + i % 50).toString())
                                    x.fail("notification:identity", QString("announced as \"%1\" instead of \"%2\"").arg(e.params.value("clientName").toString().left(100), names[i].left(100)));
                            }
                        srv->pending.clear();
                        if (n != 1)
                            x.fail("notification:count", QString("%1 announcements of name %2").arg(n).arg(i));
                        f.drop(c);
                        f.settle();
                        srv->take();
                        srv->pending.clear();
                    }
                });
        for (Transport t : kAll)
            for (int bytes : {0, 1, 65535, 1200000})
                for (int mask = 0; mask < 8; ++mask) // traffic up, down; another client stays
                    l.add(QString("a client on %1 leaves behind %2 bytes%3%4%5").arg(transportName(t)).arg(bytes).arg(mask & 1 ? " sent" : "", mask & 2 ? " received" : "", mask & 4 ? ", another one stays" : ""), [=](Ctx &x) {
                        Fix f(x, optsFor({t}));
                        Conn *srv = f.server(Unix, 1);
                        if (mask & 4)
                            f.client(Unix, 12, 1, srv);
                        for (int round = 0; round < 3 && !x.failed; ++round) {
                            int a = -1;
                            Conn *c = f.client(t, 11, 1, srv, &a);
                            if (x.failed)
                                return;
                            for (int k = 0; k < bytes; k += 60000) {
                                QByteArray d(std::min(60000, bytes - k), 'x');
                                if (mask & 1)
                                    c->sendRaw(d);
                                if (mask & 2)
                                    srv->sendFrame((quint16)a, d);
                                f.settle();
                            }
                            srv->take();
                            if (round == 1)
                                srv->request("TunnelProxy.DisconnectClient", discParams(a));
                            else if (round == 2)
                                c->sendRaw("bye");
                            f.settle();
                            f.drop(c);
                            f.settle();
                            int gone = 0;
                            for (auto &e : srv->take())
                                gone += e.kind == Event::Notification && e.method == "TunnelProxy.ClientDisconnected" && e.params.value("socketAddress").toInt() == a;
                            srv->pending.clear();
                            if (gone != 1)
                                x.fail("notification:count", QString("round %1: the server was told %2 times that the client left").arg(round).arg(gone));
                            x.step();
                        }
                    });
    });
    m->add("coming and going", l);
    m->add("crowds", crowd(LookNotes));
    return m;
}
static CheckReg rC06("C06", makeC06);

// ---- C07 ----------------------------------------------------------------------------------------
static Check *makeC07()
{
    MultiCheck *m = new MultiCheck;
    addComeAndGo(m, CatClose | CatLivelock);
    addRaces(m, RiClose | RiMonitor);
    addSlowRaces(m, RiClose | RiMonitor);
    ListCheck *l = new ListCheck("DisconnectClient with every boundary value of the address, from every role; server loss with n clients on all transports; last bytes before a disconnect", [](ListCheck &l, bool thorough) {
        // an address outside the valid range names nobody
        for (double v : {-1.0, 0.0, 2.0, 254.0, 255.0, 256.0, 65534.0, 65535.0, 65536.0, 65537.0, 65538.0, 131073.0, 4294967297.0, -65535.0, 16777217.0, 2147483647.0})
            for (Transport t : {Tcp, Unix})
                l.add(QString("DisconnectClient of address %1 with only address 1 connected, %2").arg(v, 0, 'f', 0).arg(transportName(t)), [=](Ctx &x) {
                    Fix f(x);
                    int a = -1;
                    Conn *srv = f.server(t, 1);
                    Conn *cl = f.client(t, 11, 1, srv, &a);
                    if (x.failed)
                        return;
                    if (a == (int)v)
                        return;
                    int id = srv->request("TunnelProxy.DisconnectClient", discParams(v));
                    f.settle();
                    x.step();
                    bool ok = false;
                    for (auto &e : srv->take())
                        if (e.kind == Event::Response && e.id == id)
                            ok = e.error == "TunnelProxyErrorUnknownSocketAddress" || !e.ok;
                    if (cl->closed())
                        x.fail("disconnect:wrongclient", QString("disconnecting address %1 closed the client with address %2").arg(v, 0, 'f', 0).arg(a));
                    else if (!ok)
                        x.fail("disconnect:accepted", QString("disconnecting address %1, which nobody has, was reported as done").arg(v, 0, 'f', 0));
                });
        for (int n : {1, 2, 5, 40})
            for (Transport s : kStream)
                for (Transport c : kAll) {
                    if (!compatible(s, c) || ((c == Tls || c == Wss) && n > 5))
                        continue;
                    l.add(QString("server on %1 goes, %2 clients on %3").arg(transportName(s)).arg(n).arg(transportName(c)), [=](Ctx &x) {
                        Fix f(x, optsFor({s, c}));
                        Conn *srv = f.server(s, 1);
                        Conn *other = f.server(Unix, 2);
                        int ao = -1;
                        Conn *oc = f.client(c, 500, 2, other, &ao);
                        std::vector<Conn *> cl;
                        for (int k = 0; k < n && !x.failed; ++k) {
                            int a = -1;
                            cl.push_back(f.client(c, 100 + k, 1, srv, &a));
                        }
                        if (x.failed)
                            return;
                        f.drop(srv);
                        f.settle();
                        x.step();
                        for (Conn *k : cl)
                            if (!k->closed())
                                x.fail("loss:client", "a client of the lost server is still connected");
                        if (!x.failed)
                            f.works(oc, other, ao, "the other server's tunnel");
                        // everybody may come back at once
                        if (!x.failed) {
                            Conn *again = f.server(s, 1);
                            int a = -1;
                            Conn *k = f.client(c, 100, 1, again, &a);
                            if (!x.failed)
                                f.works(k, again, a, "after coming back");
                        }
                    });
                }
        // what the server sent before asking for the disconnect is delivered
        for (int size : {1, 100, 20000, 150000, 400000, 1048577, 3000000})
            for (Transport s : kStream)
                for (Transport c : kAll)
                    for (int stalled = 0; stalled < 2; ++stalled) {
                        if (!compatible(s, c) || (size == 400000 && !thorough) || (size > 400000 && !thorough && (!stalled || s == Tls)))
                            continue;
                        l.add(QString("%1 bytes then disconnect%4, server on %2, client on %3").arg(size).arg(transportName(s), transportName(c), stalled ? ", client reading late" : ""), [=](Ctx &x) {
                            ServerOptions o = optsFor({s, c});
                            o.smallBuffers = stalled;
                            Fix f(x, o);
                            int a = -1;
                            Conn *srv = f.server(s, 1);
                            Conn *cl = f.client(c, 11, 1, srv, &a);
                            if (x.failed)
                                return;
                            QByteArray d = c == Ws || c == Wss ? QByteArray(size, 'x') : pattern(size, 5);
                            cl->peer->link->stalled = stalled;
                            srv->sendRaw(ref::frame((quint16)a, d) + srv->encode(srv->nextId++, "TunnelProxy.DisconnectClient", discParams(a)));
                            f.settle();
                            cl->peer->link->stalled = false;
                            f.settle();
                            x.step();
                            QByteArray got = Fix::data(cl->take());
                            if (got != d)
                                x.fail("disconnect:lastbytes", QString("%1 bytes were sent before the disconnect, the client received %2").arg(size).arg(got.size()));
                            else if (!cl->closed())
                                x.fail("disconnect:open", "the client was not disconnected");
                        });
                    }
    });
    m->add("boundaries", l);
    m->add("crowds", crowd(LookEnds));
    return m;
}
static CheckReg rC07("C07", makeC07);

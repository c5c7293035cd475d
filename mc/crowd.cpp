#include "crowd.h"

#include <algorithm>
#include <set>

namespace {

struct Place {
    const char *name;
    int servers, each;
};
const Place kPlaces[] = {{"one server with 300 clients", 1, 300}, {"300 servers with a client each", 300, 1}, {"20 servers with 20 clients each", 20, 20}, {"3 servers with 100 clients each", 3, 100}, {"100 servers with 3 clients each", 100, 3}};

struct Ways {
    const char *name;
    Transport server[2], client[3];
};
const Ways kWays[] = {{"TCP", {Tcp, Tcp}, {Tcp, Tcp, Tcp}}, {"unix", {Unix, Unix}, {Unix, Unix, Unix}}, {"mixed", {Tcp, Unix}, {Ws, Unix, Tcp}}, {"TLS", {Tls, Unix}, {Tls, Wss, Unix}}};

enum End { Leave, Kick, Lose };
const char *kEnds[] = {"clients leave", "servers disconnect clients", "servers leave"};

struct Story {
    Ctx &x;
    int looks;
    Place place;
    Ways ways;
    bool burst, back, byServer;
    std::unique_ptr<Fix> f;
    struct S {
        Conn *c = nullptr;
        bool up = false;
        std::map<int, int> at; // address -> client
    };
    struct C {
        Conn *c = nullptr;
        int server = 0, addr = 0;
        bool up = false;
    };
    std::vector<S> s;
    std::vector<C> c;
    int round = 0;

    Story(Ctx &ctx, int l, const Place &p, const Ways &w, bool b, bool bk, bool bs) : x(ctx), looks(l), place(p), ways(w), burst(b), back(bk), byServer(bs)
    {
        ServerOptions o;
        o.tls = ways.server[0] == Tls;
        f.reset(new Fix(x, o));
        s.resize(place.servers);
        c.resize(place.servers * place.each);
    }
    void fail(int look, const QString &key, const QString &m)
    {
        if (look & looks)
            x.fail("crowd:" + key, QString("round %1: %2").arg(round).arg(m));
        else if (!x.failed && x.verbose)
            fprintf(stderr, "not for this property: %s\n", qPrintable(m));
        if (!(look & looks))
            over = true; // somebody else's
    }
    bool over = false;
    bool stop() const { return over || x.failed; }
    static QUuid su(int i) { return uuidOf(1000 + i); }
    static QUuid cu(int j) { return uuidOf(20000 + j); }
    static QString sn(int i) { return QString("server %1").arg(i); }
    static QString cn(int j) { return QString("client %1").arg(j); }
    int opened = 0;
    void backlog() // a listening socket takes some 50 connections at once
    {
        if (++opened % 30 == 0 || !burst)
            f->settle();
    }
    void pause()
    {
        if (!burst)
            f->settle();
    }
    std::vector<int> ordered(std::vector<int> v) const
    {
        if (back)
            std::reverse(v.begin(), v.end());
        return v;
    }
    // servers and clients that are not there register
    void come()
    {
        std::vector<int> si, ci;
        for (int i = 0; i < (int)s.size(); ++i)
            if (!s[i].up)
                si.push_back(i);
        for (int i : ordered(si)) {
            s[i] = S();
            s[i].c = f->fresh(ways.server[i % 2], false);
            backlog();
        }
        f->settle();
        for (int i : ordered(si)) {
            s[i].c->sendRaw(ref::request(1, "TunnelProxy.RegisterServer", regServer(su(i), sn(i))));
            pause();
        }
        f->settle();
        for (int i : si) {
            auto ev = s[i].c->take();
            bool in = ev.size() == 1 && ev[0].ok && ev[0].error == "TunnelProxyErrorNoError";
            if (!in)
                return fail(LookIds, "server", sn(i) + " is not let in");
            s[i].up = true;
            s[i].c->mode = Conn::Slip;
        }
        for (int k = 0; k < (int)c.size(); ++k) {
            int j = byServer ? k : k % place.servers * place.each + k / place.servers;
            if (!c[j].up)
                ci.push_back(j);
        }
        for (int j : ordered(ci)) {
            c[j] = C();
            c[j].server = j / place.each;
            c[j].c = f->fresh(ways.client[j % 3], false);
            backlog();
        }
        f->settle();
        for (int j : ordered(ci)) {
            c[j].c->sendRaw(ref::request(1, "TunnelProxy.RegisterClient", regClient(cu(j), su(c[j].server), cn(j))));
            pause();
        }
        f->settle();
        for (int j : ci) {
            auto ev = c[j].c->take();
            bool in = ev.size() == 1 && ev[0].ok && ev[0].error == "TunnelProxyErrorNoError";
            if (!in)
                return fail(LookIds, "client", cn(j) + " is not let in");
            c[j].up = true;
            c[j].c->mode = Conn::Raw;
        }
        // announced once, at the right server, under an address nobody there has
        std::set<int> missing(ci.begin(), ci.end());
        for (int i = 0; i < (int)s.size(); ++i)
            for (const Event &e : s[i].c->take()) {
                if (e.kind != Event::Notification || !e.method.endsWith("ClientConnected"))
                    return fail(LookNotes, "stray", sn(i) + " received " + e.canonical().left(100));
                int j = -1;
                for (int k : missing)
                    if (e.params.value("clientUuid").toUuid() == cu(k))
                        j = k;
                int a = e.params.value("socketAddress").toInt();
                if (j < 0 || c[j].server != i || e.params.value("clientName").toString() != cn(j))
                    return fail(LookNotes, "announced", sn(i) + " is told of " + e.canonical().left(200));
                if (a <= 0 || a >= 0xffff || s[i].at.count(a))
                    return fail(LookNotes, "address", QString("%1 has the address %2").arg(cn(j)).arg(a));
                missing.erase(j);
                c[j].addr = a;
                s[i].at[a] = j;
            }
        if (!missing.empty())
            return fail(LookNotes, "announced", cn(*missing.begin()) + " is not announced");
    }
    QByteArray text(int j, bool up) const { return QString("%1 %2 %3 ").arg(up ? "up" : "down").arg(j).arg(round).toUtf8() + QByteArray((j * 37 + round) % 200, char('a' + j % 26)); }
    void talk()
    {
        std::vector<int> js;
        for (int j = 0; j < (int)c.size(); ++j)
            if (c[j].up)
                js.push_back(j);
        for (int j : ordered(js)) {
            c[j].c->sendRaw(text(j, true));
            s[c[j].server].c->sendFrame(quint16(c[j].addr), text(j, false));
        }
        f->settle();
        for (int j : js) {
            if (c[j].c->closed())
                return fail(LookEnds, "closed", cn(j) + " is closed");
            QByteArray got = Fix::data(c[j].c->take());
            if (got != text(j, false))
                return fail(LookData, "down", cn(j) + " received '" + got.left(60) + "'");
        }
        for (int i = 0; i < (int)s.size(); ++i) {
            if (!s[i].up)
                continue;
            if (s[i].c->closed())
                return fail(LookEnds, "closed", sn(i) + " is closed");
            std::map<int, QByteArray> got;
            for (const Event &e : s[i].c->take()) {
                if (e.kind != Event::Data)
                    return fail(LookNotes, "stray", sn(i) + " received " + e.canonical().left(100));
                got[e.addr] += e.data;
            }
            for (auto &a : s[i].at) {
                if (got[a.first] != text(a.second, true))
                    return fail(LookData, "up", QString("from %1 %2 received '%3'").arg(cn(a.second), sn(i), QString(got[a.first].left(60))));
                got.erase(a.first);
            }
            if (!got.empty())
                return fail(LookData, "stray", QString("%1 received data of address %2").arg(sn(i)).arg(got.begin()->first));
        }
        x.step();
    }
    // those that are there are not let in twice
    void twice()
    {
        std::vector<std::pair<Conn *, QString>> more;
        for (int i = 0; i < (int)s.size(); i += std::max<int>(1, s.size() / 9))
            if (s[i].up) {
                more.emplace_back(f->fresh(Unix), "the UUID of " + sn(i));
                more.back().first->sendRaw(ref::request(1, "TunnelProxy.RegisterServer", regServer(su(i), "second")));
            }
        for (int j = 0; j < (int)c.size(); j += std::max<int>(1, c.size() / 9))
            if (c[j].up) {
                more.emplace_back(f->fresh(Unix), "the UUID of " + cn(j));
                more.back().first->sendRaw(ref::request(1, "TunnelProxy.RegisterClient", regClient(cu(j), su((c[j].server + 1) % place.servers), "second")));
            }
        f->settle();
        for (auto &m : more) {
            auto ev = m.first->take();
            if (ev.size() != 1 || ev[0].error == "TunnelProxyErrorNoError")
                return fail(LookIds, "twice", m.second + " is taken a second time");
            f->drop(m.first);
        }
        f->settle();
    }
    void report()
    {
        bool ok = false;
        QVariantMap m = f->w.monitor(true, &ok).value("tunnelProxyStatistic").toMap();
        if (!ok)
            return fail(LookReport, "report", "there is no report");
        int ns = 0, nc = 0;
        std::set<QString> want, got;
        for (int i = 0; i < (int)s.size(); ++i)
            ns += s[i].up;
        for (int j = 0; j < (int)c.size(); ++j) {
            nc += c[j].up;
            if (c[j].up)
                want.insert(sn(c[j].server) + "/" + cn(j) + "/" + cu(j).toString());
        }
        for (int i = 0; i < (int)s.size(); ++i)
            if (s[i].up)
                want.insert(sn(i) + "/" + su(i).toString());
        int rows = 0;
        for (const QVariant &v : m.value("tunnelConnections").toList()) {
            QVariantMap sm = v.toMap();
            got.insert(sm.value("name").toString() + "/" + sm.value("serverUuid").toUuid().toString());
            rows++;
            for (const QVariant &u : sm.value("clientConnections").toList()) {
                QVariantMap cm = u.toMap();
                got.insert(sm.value("name").toString() + "/" + cm.value("name").toString() + "/" + cm.value("clientUuid").toUuid().toString());
                rows++;
            }
        }
        if (m.value("serverConnectionsCount").toInt() != ns || m.value("clientConnectionsCount").toInt() != nc || m.value("totalClientCount").toInt() != ns + nc)
            return fail(LookReport, "counts", QString("%1 servers, %2 clients, %3 in total reported, there are %4 and %5").arg(m.value("serverConnectionsCount").toInt()).arg(m.value("clientConnectionsCount").toInt()).arg(m.value("totalClientCount").toInt()).arg(ns).arg(nc));
        if (want != got || rows != ns + nc)
            return fail(LookReport, "rows", "the report lists other connections than there are");
    }
    // every third of them, from a different one on each time
    void end(End how)
    {
        std::vector<int> js;
        std::set<int> lost;
        if (how == Lose) {
            for (int i = 0; i < (int)s.size(); ++i)
                if ((i + round) % 3 == 0 || s.size() == 1)
                    lost.insert(i);
            for (int i : ordered(std::vector<int>(lost.begin(), lost.end()))) {
                s[i].c->peer->link->close();
                pause();
            }
        } else {
            for (int j = 0; j < (int)c.size(); ++j)
                if ((j / 2 + round) % 3 == 0)
                    js.push_back(j);
            for (int j : ordered(js)) {
                if (how == Leave)
                    c[j].c->peer->link->close();
                else
                    s[c[j].server].c->request("TunnelProxy.DisconnectClient", discParams(c[j].addr));
                pause();
            }
        }
        f->settle();
        std::set<int> gone(js.begin(), js.end());
        for (int j = 0; j < (int)c.size(); ++j)
            if (lost.count(c[j].server))
                gone.insert(j);
        for (int j = 0; j < (int)c.size(); ++j) {
            bool over = gone.count(j);
            if (how == Leave && over)
                continue;
            if (c[j].c->closed() != over)
                return fail(LookEnds, "ends", cn(j) + (over ? " is still connected" : " is closed"));
            if (!over && !c[j].c->take().empty())
                return fail(LookData, "stray", cn(j) + " received something");
        }
        for (int i = 0; i < (int)s.size(); ++i) {
            if (lost.count(i))
                continue;
            if (s[i].c->closed())
                return fail(LookEnds, "ends", sn(i) + " is closed");
            std::set<int> told;
            int answers = 0, asked = 0;
            for (int j : js)
                asked += how == Kick && c[j].server == i;
            for (const Event &e : s[i].c->take()) {
                if (e.kind == Event::Response) {
                    answers += e.ok;
                    continue;
                }
                if (e.kind != Event::Notification || !e.method.endsWith("ClientDisconnected"))
                    return fail(LookNotes, "stray", sn(i) + " received " + e.canonical().left(100));
                int a = e.params.value("socketAddress").toInt();
                if (!s[i].at.count(a) || !gone.count(s[i].at[a]) || !told.insert(a).second)
                    return fail(LookNotes, "ended", QString("%1 is told of the end of %2").arg(sn(i)).arg(a));
            }
            if (answers != asked)
                return fail(LookEnds, "answers", QString("%1 has %2 answers to %3 requests").arg(sn(i)).arg(answers).arg(asked));
            for (int j : gone)
                if (c[j].server == i) {
                    if (!told.count(c[j].addr))
                        return fail(LookNotes, "ended", sn(i) + " is not told of the end of " + cn(j));
                    s[i].at.erase(c[j].addr);
                }
        }
        for (int j : gone) {
            f->drop(c[j].c);
            c[j].up = false;
        }
        for (int i : lost) {
            f->drop(s[i].c);
            s[i] = S();
        }
        f->settle();
        x.step();
    }
    void run(End how, int rounds)
    {
        come();
        for (round = 1; round <= rounds && !stop(); ++round) {
            talk();
            if (!stop() && (looks & LookReport))
                report();
            if (!stop() && (looks & LookIds))
                twice();
            if (!stop())
                end(End((how + round - 1) % 3));
            if (!stop() && (looks & LookReport))
                report();
            if (!stop()) {
                for (int i = 0; i < (int)s.size(); ++i)
                    if (!s[i].up)
                        goto skip;
                talk();
            skip:
                come();
            }
        }
        if (!stop())
            talk();
    }
};

} // namespace

ListCheck *crowd(int looks)
{
    return new ListCheck("five crowds of 300 to 600 connections over four mixtures of transports: three rounds in which everybody talks, a third leaves, is disconnected or loses its server (in each order) and comes back; one after the other or at once, in either order", [looks](ListCheck &l, bool thorough) {
        for (const Place &p : kPlaces)
            for (const Ways &w : kWays)
                for (int how = 0; how < 3; ++how)
                    for (int burst = 0; burst < 2; ++burst)
                        for (int back = 0; back < 2; ++back) {
                            if (w.server[0] == Tls && !thorough && (!burst || back || how != Lose))
                                continue;
                            if (!thorough && !burst && back != (how == Kick))
                                continue;
                            l.add(QString("%1, %2, %3 first, %4%5").arg(p.name, w.name, kEnds[how], burst ? "at once" : "one by one", back ? ", backwards" : ""), [=](Ctx &x) {
                                Story t(x, looks, p, w, burst, back, how == Kick);
                                t.run(End(how), thorough ? 6 : 3);
                                x.outcome(QByteArray::number(int(t.over)));
                            });
                        }
    });
}

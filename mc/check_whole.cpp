// C24 the client library and the proxy together: tunnels from one application to the other
#include "client.h"

#include <algorithm>
#include <set>
#include <unistd.h>

using namespace remoteproxyclient;
typedef TunnelProxyRemoteConnection Remote;
typedef TunnelProxySocketServer Sockets;

namespace {

// S<i> serves uuid 1+i (in the family of rivals both serve uuid 1), R<j> is client 11+j
struct Far {
    QPointer<TunnelProxySocket> sock;
    QUuid who;
    QByteArray got;
    bool gone = false;
};

struct Srv {
    std::unique_ptr<Sockets> s;
    std::vector<std::unique_ptr<Far>> far;
    bool announced = false;
};

struct Rem {
    std::unique_ptr<Remote> r;
    QByteArray got;
    bool announced = false;
};

struct Whole {
    Ctx &ctx;
    World w;
    ServerOptions o;
    bool rivals;
    bool serverTls, clientWs;
    Srv srv[2];
    Rem rem[2];
    int serial = 0;
    QString host = "127.0.0.1";

    Whole(Ctx &c, bool tls, bool ws, bool rv) : ctx(c), w(c), rivals(rv), serverTls(tls), clientWs(ws)
    {
        o.tls = tls;
        w.start(o);
        for (int i = 0; i < 2; ++i) {
            Srv &s = srv[i];
            s.s.reset(new Sockets(serverUuid(i), QString("server %1").arg(i)));
            Sockets *p = s.s.get();
            QObject::connect(p, &Sockets::sslErrors, p, [p] { p->ignoreSslErrors(); });
            QObject::connect(p, &Sockets::runningChanged, p, [this, &s, p](bool on) {
                if (on == s.announced || on != p->running())
                    ctx.fail("whole:signal", "runningChanged twice in a row or against running()");
                s.announced = on;
            });
            QObject::connect(p, &Sockets::clientConnected, p, [this, &s, p](TunnelProxySocket *t) {
                s.far.emplace_back(new Far);
                Far *f = s.far.back().get();
                f->sock = t;
                f->who = t->clientUuid();
                int j = f->who == uuidOf(11) ? 0 : f->who == uuidOf(12) ? 1 : -1;
                if (j < 0 || t->clientName() != name(j) || !t->connected())
                    ctx.fail("whole:who", "a client appeared as " + t->clientName() + " " + f->who.toString());
                QObject::connect(t, &TunnelProxySocket::dataReceived, p, [this, f](const QByteArray &d) {
                    if (f->gone)
                        ctx.fail("whole:data", "data of a client that is gone");
                    f->got += d;
                });
            });
            QObject::connect(p, &Sockets::clientDisconnected, p, [this, &s](TunnelProxySocket *t) {
                for (auto &f : s.far)
                    if (f->sock == t) {
                        if (f->gone)
                            ctx.fail("whole:end", "the end of a client was reported twice");
                        f->gone = true;
                        return;
                    }
                ctx.fail("whole:end", "the end of an unknown client was reported");
            });
            Rem &r = rem[i];
            r.r.reset(new Remote(uuidOf(11 + i), name(i), ws ? Remote::ConnectionTypeWebSocket : Remote::ConnectionTypeTcpSocket));
            Remote *q = r.r.get();
            QObject::connect(q, &Remote::sslErrors, q, [q] { q->ignoreSslErrors(); });
            QObject::connect(q, &Remote::remoteConnectedChanged, q, [this, &r, q](bool on) {
                if (on == r.announced || on != q->remoteConnected())
                    ctx.fail("whole:signal", "remoteConnectedChanged twice in a row or against remoteConnected()");
                r.announced = on;
            });
            QObject::connect(q, &Remote::dataReady, q, [this, &r](const QByteArray &d) { r.got += d; });
        }
    }
    QUuid serverUuid(int i) const { return uuidOf(rivals ? 1 : 1 + i); }
    static QString name(int j) { return QString("client \"%1\" {").arg(j); }
    QUrl url(bool ws) const
    {
        return ws ? QUrl(QString("%1://%2:%3").arg(serverTls ? "wss" : "ws", host).arg(w.wsPort()))
                  : QUrl(QString("%1://%2:%3").arg(serverTls ? "ssl" : "tcp", host).arg(w.tcpPort()));
    }
    Far *farOf(int i, int j)
    {
        for (auto &f : srv[i].far)
            if (!f->gone && f->who == uuidOf(11 + j))
                return f.get();
        return nullptr;
    }
    int farCount(int i)
    {
        int n = 0;
        for (auto &f : srv[i].far)
            n += !f->gone;
        return n;
    }
    void pass(int ms)
    {
        for (int t = 0; t < ms; t += 500) {
            w.advance(500);
            w.settle();
        }
    }
    QByteArray payload()
    {
        static const int sizes[] = {1, 40, 700, 5000};
        int k = serial++;
        QByteArray d = pattern(sizes[k % 4], k);
        if (clientWs)
            for (char &c : d)
                c = char(' ' + (quint8(c) % 90));
        return d;
    }
};

// Names are looked up in a thread of Qt's: real time has to pass, but nothing depends on how much.
void lookedUp(Whole &w)
{
    for (int i = 0; i < 5000; ++i) {
        w.w.settle();
        bool busy = false;
        for (int k = 0; k < 2; ++k)
            busy = busy || w.srv[k].s->state() == Sockets::StateHostLookup || w.rem[k].r->state() == Remote::StateHostLookup || w.rem[k].r->state() == Remote::StateConnecting;
        if (!busy)
            return;
        usleep(1000);
    }
    w.ctx.fail("whole:name", "a name is still being looked up");
}

enum Op { SStart0, SStop0, SStart1, SStop1, RTo0, RTo1, QTo0, QTo1, RLeave, QLeave, RTalk, QTalk, STalk, Kick, ProxyStop, ProxyStart, Wait, OpCount };
const char *kOps[] = {"server 0 starts", "server 0 stops", "server 1 starts", "server 1 stops", "client 0 connects to server 0", "client 0 connects to server 1", "client 1 connects to server 0", "client 1 connects to server 1",
    "client 0 disconnects", "client 1 disconnects", "client 0 talks", "client 1 talks", "the servers talk to all clients", "the servers disconnect all clients", "the proxy stops", "the proxy starts", "six seconds pass"};

// what is expected when everything has come to rest
struct Expect {
    bool rivals;
    bool proxy = true;
    bool enabled[2] = {false, false};
    bool running[2] = {false, false};
    int at[2] = {-1, -1}; // client -> server
    explicit Expect(bool r) : rivals(r) {}
    void end(int i)
    {
        running[i] = false;
        for (int &a : at)
            if (a == i)
                a = -1;
    }
    void retry()
    {
        for (int i = 0; i < 2; ++i)
            if (proxy && enabled[i] && !running[i] && !(rivals && running[1 - i]))
                running[i] = true;
    }
    // with rivals the server asked for is whoever holds the uuid
    int target(int i) const { return running[i] ? i : rivals && running[1 - i] ? 1 - i : -1; }
    bool possible(int op) const
    {
        switch (op) {
        case SStart0: return !enabled[0];
        case SStart1: return !enabled[1];
        case SStop0: return enabled[0];
        case SStop1: return enabled[1];
        case RTo1:
        case QTo1: return !rivals;
        case RLeave: return at[0] >= 0;
        case QLeave: return at[1] >= 0;
        case RTalk: return at[0] >= 0;
        case QTalk: return at[1] >= 0;
        case STalk:
        case Kick: return at[0] >= 0 || at[1] >= 0;
        case ProxyStop: return proxy;
        case ProxyStart: return !proxy;
        case Wait: return enabled[0] != running[0] || enabled[1] != running[1];
        }
        return true;
    }
    void apply(int op)
    {
        switch (op) {
        case SStart0:
        case SStart1: {
            int i = op == SStart1;
            enabled[i] = true;
            running[i] = proxy && !(rivals && running[1 - i]);
            break;
        }
        case SStop0:
        case SStop1:
            enabled[op == SStop1] = false;
            end(op == SStop1);
            break;
        case RTo0: at[0] = target(0); break;
        case RTo1: at[0] = target(1); break;
        case QTo0: at[1] = target(0); break;
        case QTo1: at[1] = target(1); break;
        case RLeave: at[0] = -1; break;
        case QLeave: at[1] = -1; break;
        case Kick: at[0] = at[1] = -1; break;
        case ProxyStop:
            proxy = false;
            end(0);
            end(1);
            break;
        case ProxyStart: proxy = true; break;
        case Wait: retry(); break;
        }
    }
};

void act(Whole &w, int op)
{
    switch (op) {
    case SStart0:
    case SStart1:
        w.srv[op == SStart1].s->startServer(w.url(false));
        break;
    case SStop0:
    case SStop1:
        w.srv[op == SStop1].s->stopServer();
        break;
    case RTo0:
    case RTo1:
    case QTo0:
    case QTo1:
        w.rem[op >= QTo0].r->connectServer(w.url(w.clientWs), w.serverUuid((op - RTo0) & 1));
        break;
    case RLeave:
    case QLeave:
        w.rem[op == QLeave].r->disconnectServer();
        break;
    case Kick:
        for (Srv &s : w.srv)
            for (size_t k = 0; k < s.far.size(); ++k)
                if (!s.far[k]->gone && s.far[k]->sock)
                    s.far[k]->sock->disconnectSocket();
        break;
    case ProxyStop: w.w.stop(); break;
    case ProxyStart: w.w.start(w.o); break;
    case Wait: w.pass(6000); break;
    }
}

// both ends agree, and the proxy's own report with them
void agree(Whole &w, const QString &when)
{
    w.ctx.step();
    int clients = 0, servers = 0;
    for (int i = 0; i < 2; ++i) {
        servers += w.srv[i].s->running();
        if (!w.srv[i].s->running() && w.farCount(i))
            w.ctx.fail("whole:agree", when + ": a server that is not running has clients");
    }
    for (int j = 0; j < 2; ++j) {
        int n = (w.farOf(0, j) != nullptr) + (w.farOf(1, j) != nullptr);
        clients += n;
        if (n != (int)w.rem[j].r->remoteConnected())
            w.ctx.fail("whole:agree", QString("%1: client %2 is %3 but %4 servers have it").arg(when).arg(j).arg(w.rem[j].r->remoteConnected() ? "connected" : "not connected").arg(n));
    }
    if (w.farCount(0) + w.farCount(1) != clients)
        w.ctx.fail("whole:agree", when + ": a server has the same client twice");
    bool ok = false;
    QVariantMap m = w.w.monitor(true, &ok).value("tunnelProxyStatistic").toMap();
    if (ok && (m.value("serverConnectionsCount").toInt() != servers || m.value("clientConnectionsCount").toInt() != clients))
        w.ctx.fail("whole:agree", QString("%1: the proxy reports %2 servers, %3 clients; there are %4, %5").arg(when).arg(m.value("serverConnectionsCount").toInt()).arg(m.value("clientConnectionsCount").toInt()).arg(servers).arg(clients));
}

void talk(Whole &w, bool up, int only, const QString &when)
{
    QByteArray want[2];
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 2; ++i) {
            Far *f = w.farOf(i, j);
            if (!f || (only >= 0 && j != only))
                continue;
            f->got.clear();
            w.rem[j].got.clear();
            for (int k = 0; k < 3; ++k) {
                QByteArray d = w.payload();
                want[j] += d;
                if (!up)
                    f->sock->writeData(d);
                else if (!w.rem[j].r->sendData(d))
                    w.ctx.fail("whole:data", when + ": sendData refused");
            }
        }
    w.w.settle();
    for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 2; ++i) {
            Far *f = w.farOf(i, j);
            if (!f || (only >= 0 && j != only))
                continue;
            w.ctx.step();
            QByteArray &g = up ? f->got : w.rem[j].got;
            if (g != want[j])
                w.ctx.fail("whole:data", QString("%1: %2 of client %3: %4 bytes %5 arrived of %6 bytes %7").arg(when, up ? "data" : "data for").arg(j).arg(g.size()).arg(QString(hex(g, 16))).arg(want[j].size()).arg(QString(hex(want[j], 16))));
            g.clear();
        }
}

void compare(Whole &w, const Expect &e, const QString &when)
{
    agree(w, when);
    QByteArray st;
    for (int i = 0; i < 2; ++i) {
        st += char('0' + e.running[i]) + QByteArray(1, char('0' + e.enabled[i]));
        if (w.srv[i].s->running() != e.running[i])
            w.ctx.fail("whole:running", QString("%1: server %2 is %3running").arg(when).arg(i).arg(e.running[i] ? "not " : ""));
    }
    for (int j = 0; j < 2; ++j) {
        st += char('1' + e.at[j]);
        bool on = w.rem[j].r->remoteConnected();
        if (on != (e.at[j] >= 0) || (on && !w.farOf(e.at[j], j)))
            w.ctx.fail("whole:connected", QString("%1: client %2 is %3, expected %4").arg(when).arg(j).arg(on ? "connected" : "not connected").arg(e.at[j] < 0 ? "not connected" : QString("at server %1").arg(e.at[j])));
        if (!on && w.rem[j].r->sendData("lost"))
            w.ctx.fail("whole:data", when + ": sendData accepted without a connection");
    }
    w.ctx.state(st + char('0' + e.proxy));
    w.ctx.observe(st);
}

struct Family {
    bool tls, ws, rivals;
};

// every operation takes effect before the next
void inTurn(const Family &f, const std::vector<int> &ops, Ctx &ctx)
{
    Whole w(ctx, f.tls, f.ws, f.rivals);
    Expect e(f.rivals);
    QString when;
    for (int op : ops) {
        when += (when.isEmpty() ? "" : ", ") + QString(kOps[op]);
        act(w, op);
        bool either = op == Wait && e.rivals && e.proxy && e.enabled[0] && e.enabled[1] && !e.running[0] && !e.running[1];
        e.apply(op);
        w.w.settle();
        if (either && w.srv[1].s->running()) // whoever comes first
            std::swap(e.running[0], e.running[1]);
        if (op == RTalk || op == QTalk)
            talk(w, true, op == QTalk, when);
        else if (op == STalk)
            talk(w, false, -1, when);
        compare(w, e, when);
        if (ctx.failed)
            return;
    }
}

// nothing takes effect before all of them are done; whatever came of it has to fit together
void atOnce(const Family &f, const std::vector<int> &before, const std::vector<int> &ops, Ctx &ctx)
{
    Whole w(ctx, f.tls, f.ws, f.rivals);
    for (int op : before) {
        act(w, op);
        w.w.settle();
    }
    QString when;
    for (int op : ops) {
        when += (when.isEmpty() ? "" : " and ") + QString(kOps[op]);
        if (op == RTalk || op == QTalk) {
            w.rem[op == QTalk].r->sendData(w.payload());
        } else if (op == STalk) {
            for (Srv &s : w.srv)
                for (auto &x : s.far)
                    if (!x->gone && x->sock)
                        x->sock->writeData(w.payload());
        } else {
            act(w, op);
        }
    }
    w.w.settle();
    agree(w, when + " at once");
    ctx.outcome(QByteArray::number(w.srv[0].s->running()) + QByteArray::number(w.srv[1].s->running()) + QByteArray::number(w.farCount(0)) + QByteArray::number(w.farCount(1)));
    if (ctx.failed)
        return;
    // and goes on
    w.w.start(w.o);
    for (auto &s : w.srv)
        s.s->stopServer();
    for (auto &r : w.rem)
        r.r->disconnectServer();
    w.w.settle();
    agree(w, when + " at once, then everything is stopped");
    if (w.srv[0].s->running() || w.srv[1].s->running() || w.rem[0].r->remoteConnected() || w.rem[1].r->remoteConnected())
        ctx.fail("whole:after", when + " at once: stopping everything left something");
    act(w, SStart0);
    w.w.settle();
    act(w, RTo0);
    act(w, QTo0);
    w.w.settle();
    Expect e(f.rivals);
    e.enabled[0] = e.running[0] = true;
    e.at[0] = e.at[1] = 0;
    compare(w, e, when + " at once, then anew");
    if (!ctx.failed)
        talk(w, true, -1, when);
    if (!ctx.failed)
        talk(w, false, -1, when);
}

SequenceCheck *turns(const QString &name, Family f, int quick, int thorough)
{
    SequenceCheck *c = new SequenceCheck;
    c->name = name;
    for (const char *o : kOps)
        c->ops << o;
    c->depth = quick;
    c->depthThorough = thorough;
    c->possible = [f](const std::vector<int> &p, int op) {
        Expect e(f.rivals);
        for (int o : p)
            e.apply(o);
        // client 1 and server 1 are no different before client 0 and server 0 have done anything
        if (!e.possible(op))
            return false;
        auto has = [&](int a, int b) { return std::find_if(p.begin(), p.end(), [=](int o) { return o == a || o == b; }) != p.end(); };
        if ((op == QTo0 || op == QTo1) && !has(RTo0, RTo1))
            return false;
        if (op == SStart1 && !has(SStart0, SStart0))
            return false;
        return true;
    };
    c->execute = [f](const std::vector<int> &ops, Ctx &ctx) { inTurn(f, ops, ctx); };
    c->boundsText = name + ": all sequences of up to %1 of %2";
    return c;
}

ListCheck *race(const QString &name, Family f, bool heavy)
{
    return new ListCheck(name + ": any two (TCP thorough: three) of the operations at once in five situations",
        [f, heavy](ListCheck &l, bool thorough) {
            static const std::vector<std::vector<int>> situations = {
                {}, {SStart0}, {SStart0, RTo0}, {SStart0, SStart1, RTo0, QTo0}, {SStart0, RTo0, QTo0, ProxyStop}};
            for (size_t s = 0; s < situations.size(); ++s)
                for (int a = 0; a < OpCount; ++a)
                    for (int b = 0; b < OpCount; ++b)
                        for (int c = -1; c < (thorough && !heavy ? int(OpCount) : 0); ++c) {
                            if (a == Wait || b == Wait || c == Wait || a == ProxyStart || b == ProxyStart || c == ProxyStart)
                                continue;
                            std::vector<int> ops = {a, b};
                            if (c >= 0)
                                ops.push_back(c);
                            QStringList t;
                            for (int o : ops)
                                t << kOps[o];
                            l.add(QString("situation %1: %2").arg(s).arg(t.join(" and ")), [=](Ctx &x) { atOnce(f, situations[s], ops, x); });
                        }
        });
}

// amounts around every limit a buffer may have, in one write or several, all of special bytes or none, one way or both
ListCheck *amounts(const QString &name, Family f)
{
    return new ListCheck(name + ": writes of sizes around powers of two up to 1 MB, alone and two in a row, ordinary and special bytes, in either direction and both at once", [f](ListCheck &l, bool thorough) {
        std::vector<int> sizes = {1, 255, 257, 1023, 1025, 4094, 4097, 16383, 16385, 32767, 32769, 65533, 65534, 65535, 65536, 65537, 70000, 131073, 1048577};
        if (thorough)
            for (int k : {2, 8, 127, 128, 256, 511, 512, 513, 1024, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 8193, 16382, 16384, 32766, 32768, 49152, 99999, 131071, 131072, 262143, 262144, 262145, 524288, 1048575, 1048576})
                sizes.push_back(k);
        for (int first : sizes)
            for (int second : thorough ? std::vector<int>{0, 1, 16385, 70000} : std::vector<int>{0, 70000})
                for (int kind = 0; kind < 2; ++kind)
                    for (int way = 0; way < 3; ++way)
                        l.add(QString("%1 and %2 bytes, %3, %4").arg(first).arg(second).arg(kind ? "special" : "ordinary", way == 0 ? "up" : way == 1 ? "down" : "both"), [=](Ctx &ctx) {
                            Whole w(ctx, f.tls, f.ws, false);
                            for (int op : {SStart0, RTo0, QTo0}) {
                                act(w, op);
                                w.w.settle();
                            }
                            Far *a = w.farOf(0, 0), *b = w.farOf(0, 1);
                            if (!a || !b)
                                return ctx.fail("whole:connected", "setup: not connected");
                            QByteArray up, down;
                            for (int n : {first, second}) {
                                if (!n)
                                    continue;
                                QByteArray d = kind && !f.ws ? QByteArray(n, '\xC0') : pattern(n, n + 1);
                                if (kind && !f.ws)
                                    for (int i = 0; i < n; i += 3)
                                        d[i] = '\xDB';
                                if (f.ws)
                                    for (int i = 0; i < n; ++i)
                                        d[i] = kind ? "\"{}\n\\"[i % 5] : char(' ' + (quint8(d[i]) % 90));
                                if (way != 1) {
                                    up += d;
                                    if (!w.rem[0].r->sendData(d))
                                        ctx.fail("whole:data", "sendData refused");
                                }
                                if (way != 0) {
                                    down += d;
                                    a->sock->writeData(d);
                                }
                            }
                            w.w.settle();
                            ctx.step();
                            if (!w.rem[0].r->remoteConnected() || !w.srv[0].s->running() || a->gone || b->gone)
                                return ctx.fail("whole:connected", "a connection ended");
                            if (a->got != up || w.rem[0].got != down)
                                ctx.fail("whole:data", QString("up: %1 bytes of %2, down: %3 bytes of %4").arg(a->got.size()).arg(up.size()).arg(w.rem[0].got.size()).arg(down.size()));
                            if (!b->got.isEmpty() || !w.rem[1].got.isEmpty())
                                ctx.fail("whole:data", "the other tunnel received something");
                            ctx.observe(QByteArray::number(a->got.size()) + "," + QByteArray::number(w.rem[0].got.size()));
                        });
    });
}

// the proxy has a name
ListCheck *names()
{
    return new ListCheck("URLs with a name instead of an address, on every transport and at either end; the name unknown at first and known later, gone and back, while the proxy comes and goes", [](ListCheck &l, bool) {
        for (int kind = 0; kind < 4; ++kind)
            for (int named = 0; named < 3; ++named)
                for (int unknown = 0; unknown < 3; ++unknown)
                    l.add(QString("%1%2, the name %3, %4").arg(kind & 1 ? "TLS" : "in the clear", kind & 2 ? ", web socket client" : "", named == 0 ? "at the server" : named == 1 ? "at the client" : "at both", unknown == 0 ? "known" : unknown == 1 ? "unknown at first" : "unknown while the proxy is away"), [=](Ctx &ctx) {
                        Whole w(ctx, kind & 1, kind & 2, false);
                        auto pass = [&](int ms) {
                            for (int t = 0; t < ms; t += 500) {
                                w.w.advance(500);
                                lookedUp(w);
                            }
                        };
                        auto start = [&](int op, bool name) {
                            w.host = name ? "proxy.test" : "127.0.0.1";
                            act(w, op);
                            lookedUp(w);
                        };
                        bool s = named != 1, c = named != 0;
                        Expect e(false);
                        sim::setNames(unknown != 1);
                        start(SStart0, s);
                        e.enabled[0] = true;
                        e.running[0] = !s || unknown != 1;
                        compare(w, e, "after the start");
                        if (!e.running[0]) {
                            pass(8000);
                            compare(w, e, "name unknown");
                            sim::setNames(true);
                            pass(8000);
                            e.running[0] = true;
                            compare(w, e, "name known");
                        }
                        if (unknown == 1)
                            pass(70000); // what was looked up once is forgotten
                        sim::setNames(unknown != 1);
                        start(RTo0, c);
                        e.at[0] = !c || unknown != 1 ? 0 : -1;
                        if (c && unknown == 1) {
                            compare(w, e, "name unknown to the client");
                            sim::setNames(true);
                            start(RTo0, c);
                            e.at[0] = 0;
                        }
                        start(QTo0, false);
                        e.at[1] = 0;
                        compare(w, e, "all connected");
                        if (ctx.failed)
                            return;
                        talk(w, true, -1, "up");
                        talk(w, false, -1, "down");
                        act(w, ProxyStop);
                        e.apply(ProxyStop);
                        lookedUp(w);
                        compare(w, e, "the proxy is away");
                        sim::setNames(unknown != 2);
                        pass(70000);
                        act(w, ProxyStart);
                        e.apply(ProxyStart);
                        pass(8000);
                        e.running[0] = !s || unknown != 2;
                        compare(w, e, "the proxy is back");
                        sim::setNames(true);
                        pass(8000);
                        e.running[0] = true;
                        start(RTo0, c);
                        e.at[0] = 0;
                        compare(w, e, "connected again");
                        if (ctx.failed)
                            return;
                        talk(w, true, -1, "up again");
                        talk(w, false, -1, "down again");
                    });
    });
}

} // namespace

static CheckReg r24("C24", [] {
    MultiCheck *m = new MultiCheck;
    Family tcp = {false, false, false}, ws = {false, true, false}, tls = {true, false, false}, wss = {true, true, false}, rivals = {false, false, true};
    m->add("TCP", turns("TCP", tcp, 5, 6));
    m->add("web socket clients", turns("web socket clients", ws, 4, 5));
    m->add("TLS", turns("TLS", tls, 4, 5));
    m->add("web socket clients with TLS", turns("web socket clients with TLS", wss, 3, 4));
    m->add("servers with one uuid", turns("two servers with one uuid", rivals, 6, 7));
    m->add("at once", race("TCP", tcp, false));
    m->add("at once, web socket clients", race("web socket clients", ws, true));
    m->add("at once, TLS", race("TLS", tls, true));
    m->add("at once, one uuid", race("two servers with one uuid", rivals, false));
    m->add("names", names());
    m->add("amounts", amounts("TCP", tcp));
    m->add("amounts, web socket clients", amounts("web socket clients", ws));
    m->add("amounts, TLS", amounts("TLS", tls));
    return m;
});

#pragma once
#include "world.h"

// A running proxy with a few registered endpoints, for the hand-enumerated parts of the checks.
struct Fix {
    Ctx &ctx;
    World w;
    std::vector<std::unique_ptr<Conn>> own;
    bool ok = true;

    explicit Fix(Ctx &c, const ServerOptions &o = ServerOptions()) : ctx(c), w(c) { ok = w.start(o); }
    ~Fix() { own.clear(); }

    Conn *fresh(Transport t, bool settleNow = true)
    {
        own.emplace_back(new Conn(w, t, settleNow));
        return own.back().get();
    }
    Conn *adopt(Transport t, Link *l, bool settleNow = true)
    {
        own.emplace_back(new Conn(w, w.adopt(t, l, settleNow)));
        return own.back().get();
    }
    Conn *server(Transport t, int u)
    {
        return server(fresh(t), u);
    }
    Conn *server(Conn *c, int u)
    {
        if (!c->registerServer(uuidOf(u), QString("server %1").arg(u)))
            bad("server registration refused");
        return c;
    }
    // registers a client and picks up the announced address at the server
    Conn *client(Transport t, int u, int serverU, Conn *srv, int *addr = nullptr)
    {
        Conn *c = fresh(t);
        if (!c->registerClient(uuidOf(u), uuidOf(serverU), QString("client %1").arg(u)))
            bad("client registration refused");
        if (addr)
            *addr = announced(srv, u);
        return c;
    }
    // consumes the server's pending events up to the announcement of client u
    int announced(Conn *srv, int u)
    {
        std::vector<Event> keep;
        int a = -1;
        for (Event &e : srv->take()) {
            if (e.kind == Event::Notification && e.method == "TunnelProxy.ClientConnected" && e.params.value("clientUuid").toUuid() == uuidOf(u))
                a = e.params.value("socketAddress").toInt();
            else
                keep.push_back(e);
        }
        srv->pending = keep;
        if (a < 0)
            bad("connect notification missing");
        return a;
    }
    void bad(const QString &m)
    {
        ok = false;
        ctx.fail("setup:" + m, "setup: " + m);
    }
    void drop(Conn *c)
    {
        for (size_t i = 0; i < own.size(); ++i)
            if (own[i].get() == c) {
                c->close();
                own.erase(own.begin() + i);
                return;
            }
    }
    void settle() { w.settle(); }
    // concatenated tunnel data of the events, optionally of one address only; other events are left out
    static QByteArray data(const std::vector<Event> &ev, int addr = -1)
    {
        QByteArray d;
        for (const Event &e : ev)
            if (e.kind == Event::Data && (addr < 0 || e.addr == addr))
                d += e.data;
        return d;
    }
    static int count(const std::vector<Event> &ev, Event::Kind k)
    {
        int n = 0;
        for (const Event &e : ev)
            n += e.kind == k;
        return n;
    }
    // one byte string from client to server; true if it arrived exactly
    bool up(Conn *cl, Conn *srv, int addr, const QByteArray &d, const QString &what)
    {
        cl->sendRaw(d);
        w.settle();
        return gotUp(srv, addr, d, what);
    }
    bool gotUp(Conn *srv, int addr, const QByteArray &d, const QString &what)
    {
        std::vector<Event> ev = srv->take();
        ctx.step();
        ctx.observe(data(ev).left(64));
        for (const Event &e : ev)
            if (e.kind != Event::Data || e.addr != addr) {
                ctx.fail("up:stray", what + ": the server received something else: " + QString(e.canonical()).left(200));
                return false;
            }
        if (data(ev) != d) {
            ctx.fail("up:bytes", QString("%1: sent %2 bytes %3, server received %4 bytes %5").arg(what).arg(d.size()).arg(QString(hex(d))).arg(data(ev).size()).arg(QString(hex(data(ev)))));
            return false;
        }
        return true;
    }
    bool down(Conn *cl, Conn *srv, int addr, const QByteArray &d, const QString &what)
    {
        srv->sendFrame((quint16)addr, d);
        w.settle();
        return gotDown(cl, d, what);
    }
    bool gotDown(Conn *cl, const QByteArray &d, const QString &what)
    {
        std::vector<Event> ev = cl->take();
        QByteArray g = data(ev);
        ctx.step();
        ctx.observe(g.left(64));
        if (g != d || Fix::count(ev, Event::Data) != (int)ev.size()) {
            ctx.fail("down:bytes", QString("%1: sent %2 bytes %3, client received %4 bytes %5").arg(what).arg(d.size()).arg(QString(hex(d))).arg(g.size()).arg(QString(hex(g))));
            return false;
        }
        return true;
    }
    bool silent(Conn *c, const QString &what, bool mayClose = false)
    {
        std::vector<Event> ev = c->take();
        ctx.step();
        if (!ev.empty() || !c->buf.isEmpty()) {
            ctx.fail("stray", what + ": something arrived where nothing may: " + (ev.empty() ? QString(hex(c->buf)) : QString(ev[0].canonical()).left(200)));
            return false;
        }
        if (c->closed() && !mayClose) {
            ctx.fail("close:unexpected", what + ": a connection was closed");
            return false;
        }
        return true;
    }
    bool live(Conn *c, const QString &what)
    {
        if (c->closed()) {
            ctx.fail("close:unexpected", what + ": a connection was closed");
            return false;
        }
        return true;
    }
    // a complete round trip over an existing tunnel
    bool works(Conn *cl, Conn *srv, int addr, const QString &what)
    {
        return live(cl, what) && live(srv, what) && up(cl, srv, addr, "probe up", what + " (probe)") && down(cl, srv, addr, "probe down", what + " (probe)");
    }
};

inline ServerOptions optsFor(std::initializer_list<Transport> ts)
{
    ServerOptions o;
    for (Transport t : ts)
        if (t == Tls || t == Wss)
            o.tls = true;
    return o;
}
// the transports that can coexist in one configuration
inline bool compatible(Transport a, Transport b)
{
    auto sec = [](Transport t) { return t == Tls || t == Wss; };
    auto plain = [](Transport t) { return t == Tcp || t == Ws; };
    return !((sec(a) && plain(b)) || (plain(a) && sec(b)));
}
static const Transport kStream[] = {Tcp, Unix, Tls};
static const Transport kAll[] = {Tcp, Unix, Ws, Tls, Wss};

inline QVariantMap regServer(const QUuid &u, const QString &name)
{
    QVariantMap p;
    p["serverName"] = name;
    p["serverUuid"] = u.toString();
    return p;
}
inline QVariantMap regClient(const QUuid &u, const QUuid &s, const QString &name)
{
    QVariantMap p;
    p["clientName"] = name;
    p["clientUuid"] = u.toString();
    p["serverUuid"] = s.toString();
    return p;
}
inline QVariantMap discParams(const QVariant &addr)
{
    QVariantMap p;
    p["socketAddress"] = addr;
    return p;
}

#include "fix.h"
#include "model.h"

#include "engine.h"
#include "proxyconfiguration.h"

#include <QDir>
#include <QFileInfo>
#include <dirent.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

// C18: the proxy can be started, stopped and started again at any time, and what is running is what the
// last call asked for.

namespace {

enum LifeOp { LStartA, LStartB, LStartC, LStop, LDestroy, LSettle, LPass, LWait, LVisit, LMonitor, LKinds };
const char *kLifeName[] = {"startA", "startB(tls)", "startC(other ports)", "stop", "destroy", "settle", "pass", "wait", "visit", "monitor"};

ServerOptions lifeConfig(int k)
{
    ServerOptions o;
    if (k == 0) {
        o.name = "alpha";
    } else if (k == 1) {
        o.name = "beta";
        o.tls = true;
    } else {
        o.name = "gamma";
        o.portShift = 1000;
        o.tag = "-c";
        o.inactiveTimeout = 3000;
    }
    return o;
}

bool reachable(quint16 port)
{
    int fd = sim::rawConnect(port);
    if (fd >= 0)
        ::close(fd);
    return fd >= 0;
}
bool reachableUnix(const QString &path)
{
    int fd = sim::rawUnixConnect(path.toLocal8Bit().constData());
    if (fd >= 0)
        ::close(fd);
    return fd >= 0;
}

struct Life {
    Ctx &x;
    World w;
    int config = -1;    // the one asked for, -1: none
    int epoch = 0;      // counts what ends all connections
    std::vector<bool> signalled;
    struct Visit {
        int epoch;
        Transport t;
        std::unique_ptr<Conn> srv, cl;
        int addr = -1;
        QByteArray backlog; // sent to the client, which does not read
    };
    std::vector<std::unique_ptr<Visit>> visits;
    std::vector<std::pair<int, std::unique_ptr<RawLink>>> monitors;
    int uuids = 0;
    QMetaObject::Connection watching;

    explicit Life(Ctx &c) : x(c), w(c) {}
    ~Life()
    {
        QObject::disconnect(watching);
        visits.clear();
        monitors.clear();
    }

    remoteproxy::Engine *engine() { return remoteproxy::Engine::instance(); }

    void watch()
    {
        QObject::disconnect(watching);
        watching = QObject::connect(engine(), &remoteproxy::Engine::runningChanged, [this](bool r) { signalled.push_back(r); });
    }

    bool tunnel(Transport t, Visit *v, const QString &what)
    {
        v->t = t;
        // a web socket cannot be a tunnel's server side
        Transport st = (t == Ws) ? Tcp : (t == Wss) ? Tls : t;
        v->srv.reset(new Conn(w, st));
        int su = ++uuids, cu = ++uuids;
        if (!v->srv->registerServer(uuidOf(su), "srv"))
            return fail("tunnel", what + ": no server can register over " + transportName(st));
        v->cl.reset(new Conn(w, t));
        if (!v->cl->registerClient(uuidOf(cu), uuidOf(su), "cl"))
            return fail("tunnel", what + ": no client can register over " + transportName(t));
        v->srv->pending.clear();
        for (const Event &e : v->srv->take())
            if (e.kind == Event::Notification)
                v->addr = e.params.value("socketAddress").toInt();
        return works(v, what);
    }
    bool works(Visit *v, const QString &what)
    {
        if (v->srv->closed() || v->cl->closed())
            return fail("tunnel", what + ": the tunnel's connections are closed");
        v->cl->sendRaw("to the server");
        v->srv->sendFrame((quint16)v->addr, "to the client");
        w.settle();
        if (Fix::data(v->srv->take(), v->addr) != "to the server" || Fix::data(v->cl->take()) != "to the client")
            return fail("tunnel", what + ": the tunnel does not carry data");
        x.step();
        return true;
    }
    bool fail(const QString &k, const QString &m)
    {
        x.fail("life:" + k, m);
        return false;
    }

    void start(int k)
    {
        remoteproxy::ProxyConfiguration *c = w.configure(lifeConfig(k));
        if (!c)
            return;
        engine(); // may be created here
        watch();
        engine()->start(c);
        config = k;
        epoch++;
    }

    bool op(int o)
    {
        switch (o) {
        case LStartA:
        case LStartB:
        case LStartC:
            start(o - LStartA);
            break;
        case LStop:
            if (remoteproxy::Engine::exists()) {
                engine()->stop();
                if (engine()->running())
                    return fail("running", "running() right after stop()");
            }
            config = -1;
            epoch++;
            break;
        case LDestroy:
            if (remoteproxy::Engine::exists())
                engine()->destroy();
            if (remoteproxy::Engine::exists())
                return fail("exists", "exists() after destroy()");
            signalled.clear();
            config = -1;
            epoch++;
            break;
        case LSettle:
            w.settle();
            break;
        case LPass:
            g_disp->pass();
            break;
        case LWait:
            w.advance(1300);
            break;
        case LVisit:
            if (config >= 0) {
                static const Transport plain[] = {Tcp, Ws, Unix}, tls[] = {Tls, Wss, Unix};
                Transport t = (lifeConfig(config).tls ? tls : plain)[visits.size() % 3];
                visits.emplace_back(new Visit);
                visits.back()->epoch = epoch;
                if (!tunnel(t, visits.back().get(), "visit"))
                    return false;
                if (visits.size() % 2 == 0) { // this one stops reading
                    Visit *v = visits.back().get();
                    v->cl->peer->link->stalled = true;
                    v->backlog = QByteArray(600000, 'b');
                    v->srv->sendFrame((quint16)v->addr, v->backlog);
                    w.settle();
                }
            }
            break;
        case LMonitor:
            if (config >= 0) {
                int fd = sim::rawUnixConnect(w.monitorPath().toLocal8Bit().constData());
                if (fd < 0)
                    return fail("monitor", "the monitor's socket does not accept");
                monitors.emplace_back(epoch, std::unique_ptr<RawLink>(new RawLink(fd)));
            }
            break;
        }
        return true;
    }

    bool reach(const QString &when)
    {
        // every address of every configuration
        for (int k = 0; k < 3; ++k) {
            if (k == 1)
                continue; // the addresses of A
            ServerOptions o = lifeConfig(k);
            bool want = config >= 0 && (config == 2) == (k == 2);
            bool tcp = reachable(quint16(World::kTcpPort + o.portShift)), ws = reachable(quint16(World::kWsPort + o.portShift));
            bool un = reachableUnix(w.dir + "/tunnel" + o.tag + ".sock"), mon = reachableUnix(w.dir + "/monitor" + o.tag + ".sock");
            x.step();
            if (tcp != want || ws != want || un != want || mon != want)
                return fail("reach", QString("%1: %2 %3 but tcp %4, web socket %5, unix %6, monitor %7").arg(when).arg(want ? "running on" : "not running on").arg(k == 2 ? "the other ports" : "the usual ports").arg(tcp).arg(ws).arg(un).arg(mon));
        }
        return true;
    }

    void finish()
    {
        if (w.dir.isEmpty())
            w.dir = scratchDir();
        if (!reach("at once"))
            return;
        w.settle();
        bool run = remoteproxy::Engine::exists() && engine()->running();
        x.outcome(QByteArray::number(config) + (run ? "r" : "-"));
        if (run != (config >= 0)) {
            fail("running", QString("running() is %1, the last call was %2").arg(run ? "true" : "false").arg(config >= 0 ? "start()" : "stop()"));
            return;
        }
        for (size_t i = 1; i < signalled.size(); ++i)
            if (signalled[i] == signalled[i - 1]) {
                fail("signal", "runningChanged twice with the same value");
                return;
            }
        if (remoteproxy::Engine::exists() && !signalled.empty() && signalled.back() != run) {
            fail("signal", "the last runningChanged says something else than running()");
            return;
        }
        if (!reach("at rest"))
            return;
        // earlier visitors
        for (auto &v : visits) {
            if (!v->backlog.isEmpty()) {
                v->cl->peer->link->stalled = false;
                w.settle();
                QByteArray got = Fix::data(v->cl->take());
                if (!v->backlog.startsWith(got) || (config >= 0 && v->epoch == epoch && got != v->backlog)) {
                    fail("backlog", "a client that did not read received something else");
                    return;
                }
            }
            if (config >= 0 && v->epoch == epoch) {
                if (!works(v.get(), "an earlier tunnel"))
                    return;
            } else if (!v->srv->closed() || !v->cl->closed()) {
                fail("visitor", QString("the connections of a tunnel over %1 survive the stop").arg(transportName(v->t)));
                return;
            }
        }
        for (auto &m : monitors) {
            w.settle();
            while (m.second->pump()) { }
            if (m.second->eof != !(config >= 0 && m.first == epoch)) {
                fail("visitor", m.second->eof ? "a monitor's connection was closed" : "a monitor's connection survives the stop");
                return;
            }
        }
        if (config < 0) {
            w.advance(2500);
            if (remoteproxy::Engine::exists() && engine()->running())
                fail("running", "running() some time after stop()");
            reach("later");
            return;
        }
        // the configuration of the last start
        ServerOptions o = lifeConfig(config);
        w.opts = o;
        static const Transport plain[] = {Tcp, Ws, Unix}, tls[] = {Tls, Wss, Unix};
        for (Transport t : o.tls ? tls : plain) {
            Conn c(w, t);
            int id = c.request("RemoteProxy.Hello");
            w.settle();
            std::vector<Event> ev = c.take();
            if (ev.size() != 1 || ev[0].kind != Event::Response || ev[0].id != id || ev[0].params.value("name").toString() != o.name) {
                fail("hello", QString("Hello over %1 is not answered by %2").arg(transportName(t)).arg(o.name));
                return;
            }
            c.close();
            visits.emplace_back(new Visit);
            if (!tunnel(t, visits.back().get(), "a new tunnel"))
                return;
        }
        bool ok = false;
        QVariantMap m = w.monitor(true, &ok);
        int tunnels = 0;
        for (auto &v : visits)
            tunnels += v->srv && !v->srv->closed();
        if (!ok || m.value("serverName").toString() != o.name || m.value("tunnelProxyStatistic").toMap().value("tunnelConnections").toList().size() != tunnels) {
            fail("monitor", "the monitor does not report the running proxy");
            return;
        }
        // the clock of the running proxy works: an unregistered connection ends when it should
        Conn idle(w, Unix);
        w.advance(o.inactiveTimeout - 100);
        if (idle.closed()) {
            fail("timeout", "an unregistered connection was closed too early");
            return;
        }
        w.advance(2300);
        if (!idle.closed()) {
            fail("timeout", "an unregistered connection is still open");
            return;
        }
        idle.close();
        for (auto &v : visits)
            if (!v->srv->closed() && !works(v.get(), "a tunnel later on"))
                return;
    }
};

struct LifeCheck : Check {
    int depth = 4;
    std::vector<std::vector<quint8>> seqs;
    void grow(std::vector<quint8> &cur, bool exists)
    {
        seqs.push_back(cur);
        if ((int)cur.size() == depth)
            return;
        for (int o = 0; o < LKinds; ++o) {
            bool begins = o <= LStartC;
            if (!exists && !begins && !cur.empty())
                continue;      // nothing to stop, visit or wait for
            if (!cur.empty() && (o == LSettle || o == LPass) && (cur.back() == LSettle || cur.back() == LWait))
                continue;      // no difference
            if (!cur.empty() && o == LSettle && cur.back() == LVisit)
                continue;
            cur.push_back((quint8)o);
            grow(cur, begins || (exists && o != LDestroy));
            cur.pop_back();
        }
    }
    void prepare(bool thorough) override
    {
        depth = thorough ? 5 : 4;
        std::vector<quint8> cur;
        seqs.clear();
        grow(cur, false);
        // long ones, one kind of cycle each
        for (int s = LStartA; s <= LStartC; ++s)
            for (int mid : {(int)LPass, (int)LVisit, (int)LMonitor})
                for (int e : {(int)LStop, (int)LDestroy, (int)LStartA}) {
                    std::vector<quint8> q;
                    for (int i = 0; i < 8; ++i) {
                        q.push_back((quint8)s);
                        q.push_back((quint8)mid);
                        q.push_back((quint8)e);
                    }
                    seqs.push_back(q);
                }
    }
    size_t count() const override { return seqs.size(); }
    QString describe(size_t i) const override
    {
        QStringList l;
        for (quint8 o : seqs[i])
            l << kLifeName[o];
        return l.join(", ");
    }
    void run(size_t i, Ctx &x) override
    {
        Life f(x);
        for (quint8 o : seqs[i])
            if (!f.op(o) || x.failed)
                return;
        f.finish();
    }
    QString bounds() const override
    {
        return QString("all sequences of up to %1 of: start with one of three configurations (plain, TLS on the same ports, other ports and files), stop, destroy, one pass of the event loop, coming to rest, 1.3 s, opening a tunnel that stays, opening a monitor that stays; 27 long cycles").arg(depth);
    }
};

} // namespace

// ---- resources -------------------------------------------------------------------------------------
extern "C" {
typedef void (*HookFn)(QObject *);
}
extern quintptr Q_CORE_EXPORT qtHookData[];

namespace {

qint64 g_objects = 0;
void onAdd(QObject *) { g_objects++; }
void onRemove(QObject *) { g_objects--; }
struct HookInstall {
    HookInstall()
    {
        qtHookData[3] = reinterpret_cast<quintptr>(&onAdd);
        qtHookData[4] = reinterpret_cast<quintptr>(&onRemove);
    }
} g_hookInstall;

int openFds()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n - 3; // ., .. and the directory itself
}

struct Usage {
    qint64 objects;
    int fds, timers, notifiers;
    size_t bytes;
};
Usage usage()
{
    Usage u;
    u.objects = g_objects;
    u.fds = openFds();
    u.timers = g_disp->timerCount();
    u.notifiers = g_disp->notifierCount();
    u.bytes = __sanitizer_get_current_allocated_bytes();
    return u;
}
bool same(Ctx &x, const Usage &a, const Usage &b, const QString &what, const QString &key = "resource:kept")
{
    x.step();
    if (a.objects == b.objects && a.fds == b.fds && a.timers == b.timers && a.notifiers == b.notifiers)
        return true;
    x.fail(key, QString("%1: %2 objects, %3 descriptors, %4 timers, %5 notifiers more than before").arg(what).arg(b.objects - a.objects).arg(b.fds - a.fds).arg(b.timers - a.timers).arg(b.notifiers - a.notifiers));
    return false;
}

// One visit to the proxy that leaves nothing behind. srv is a registered server that stays.
struct VisitKind {
    const char *name;
    bool needsServer;
    std::function<void(Fix &, Transport, Conn *srv, int srvU, int n)> run;
};

void badJson(Fix &f, Transport t, const char *text)
{
    Conn *c = f.fresh(t);
    c->sendRaw(text);
    f.settle();
    f.drop(c);
}

std::vector<VisitKind> visitKinds()
{
    std::vector<VisitKind> v;
    v.push_back({"connects and leaves", false, [](Fix &f, Transport t, Conn *, int, int) { f.drop(f.fresh(t)); }});
    v.push_back({"leaves before it is accepted", false, [](Fix &f, Transport t, Conn *, int, int) { f.drop(f.fresh(t, false)); }});
    v.push_back({"Hello", false, [](Fix &f, Transport t, Conn *, int, int) {
                     Conn *c = f.fresh(t);
                     c->request("RemoteProxy.Hello");
                     f.settle();
                     f.drop(c);
                 }});
    v.push_back({"half a request", false, [](Fix &f, Transport t, Conn *, int, int) { badJson(f, t, "{\"id\":1,\"method\":\"Remo"); }});
    v.push_back({"not JSON", false, [](Fix &f, Transport t, Conn *, int, int) { badJson(f, t, "{nonsense}\n"); }});
    v.push_back({"unknown method", false, [](Fix &f, Transport t, Conn *, int, int) { badJson(f, t, "{\"id\":1,\"method\":\"RemoteProxy.Nothing\"}\n"); }});
    v.push_back({"Introspect", false, [](Fix &f, Transport t, Conn *, int, int) { badJson(f, t, "{\"id\":1,\"method\":\"RemoteProxy.Introspect\"}\n"); }});
    v.push_back({"never registers", false, [](Fix &f, Transport t, Conn *, int, int) {
                     Conn *c = f.fresh(t);
                     f.w.advance(10500);
                     f.drop(c);
                 }});
    v.push_back({"server", false, [](Fix &f, Transport t, Conn *, int, int) {
                     if (t == Ws || t == Wss)
                         t = Unix;
                     f.drop(f.server(t, 50));
                 }});
    v.push_back({"server with clients, leaves first", false, [](Fix &f, Transport t, Conn *, int, int) {
                     Transport st = (t == Ws || t == Wss) ? Unix : t;
                     Conn *s = f.server(st, 50);
                     Conn *a = f.client(t, 60, 50, s), *b = f.client(t, 61, 50, s);
                     f.drop(s);
                     f.settle();
                     f.drop(a);
                     f.drop(b);
                 }});
    v.push_back({"server with clients, all leave at once", false, [](Fix &f, Transport t, Conn *, int, int n) {
                     Transport st = (t == Ws || t == Wss) ? Unix : t;
                     Conn *s = f.server(st, 50);
                     Conn *a = f.client(t, 60, 50, s), *b = f.client(t, 61, 50, s);
                     if (n % 2) {
                         f.drop(a);
                         f.drop(s);
                         f.drop(b);
                     } else {
                         f.drop(b);
                         f.drop(a);
                         f.drop(s);
                     }
                 }});
    v.push_back({"server falls silent", false, [](Fix &f, Transport t, Conn *, int, int) {
                     Transport st = (t == Ws || t == Wss) ? Unix : t;
                     Conn *s = f.server(st, 50);
                     Conn *a = f.client(t, 60, 50, s);
                     f.w.advance(62000);
                     f.drop(s);
                     f.drop(a);
                 }});
    v.push_back({"second server of that identity", true, [](Fix &f, Transport t, Conn *, int u, int) {
                     Conn *c = f.fresh(t);
                     c->registerServer(uuidOf(u));
                     f.settle();
                     f.drop(c);
                 }});
    v.push_back({"client without its server", false, [](Fix &f, Transport t, Conn *, int, int) {
                     Conn *c = f.fresh(t);
                     c->registerClient(uuidOf(60), uuidOf(99));
                     f.settle();
                     f.drop(c);
                 }});
    v.push_back({"client with data", true, [](Fix &f, Transport t, Conn *srv, int u, int n) {
                     int a = -1;
                     Conn *c = f.client(t, 60, u, srv, &a);
                     QByteArray d = pattern(100 + n % 5, n);
                     for (char &b : d)
                         b &= 0x7f;
                     f.up(c, srv, a, d, "data");
                     f.down(c, srv, a, d, "data");
                     f.drop(c);
                     f.settle();
                     srv->take();
                     srv->pending.clear();
                 }});
    v.push_back({"client, disconnected by the server", true, [](Fix &f, Transport t, Conn *srv, int u, int) {
                     int a = -1;
                     Conn *c = f.client(t, 60, u, srv, &a);
                     srv->request("TunnelProxy.DisconnectClient", discParams(a));
                     f.settle();
                     f.drop(c);
                     f.settle();
                     srv->take();
                     srv->pending.clear();
                 }});
    v.push_back({"client sends and leaves, unread", true, [](Fix &f, Transport t, Conn *srv, int u, int) {
                     Conn *c = f.client(t, 60, u, srv);
                     srv->peer->link->stalled = true;
                     c->sendRaw(QByteArray(3000, 'x'));
                     f.drop(c);
                     f.settle();
                     srv->peer->link->stalled = false;
                     f.settle();
                     srv->take();
                     srv->pending.clear();
                 }});
    v.push_back({"client that does not read, disconnected", true, [](Fix &f, Transport t, Conn *srv, int u, int) {
                     int a = -1;
                     Conn *c = f.client(t, 60, u, srv, &a);
                     c->peer->link->stalled = true;
                     srv->sendFrame((quint16)a, QByteArray(30000, 'x'));
                     f.settle();
                     srv->request("TunnelProxy.DisconnectClient", discParams(a));
                     f.settle();
                     f.drop(c);
                     f.settle();
                     srv->take();
                     srv->pending.clear();
                 }});
    v.push_back({"client half-closes", true, [](Fix &f, Transport t, Conn *srv, int u, int) {
                     Conn *c = f.client(t, 60, u, srv);
                     c->peer->link->shutdownWrite();
                     f.settle();
                     f.drop(c);
                     f.settle();
                     srv->take();
                     srv->pending.clear();
                 }});
    v.push_back({"frames to nobody", true, [](Fix &f, Transport, Conn *srv, int, int) {
                     srv->sendFrame(4711, "nobody");
                     srv->sendRaw(QByteArray("\xC0\xC0\x00\xC0", 4));
                     f.settle();
                     srv->take();
                     srv->pending.clear();
                 }});
    v.push_back({"server's Ping", true, [](Fix &f, Transport, Conn *srv, int, int) {
                     srv->request("TunnelProxy.Ping", {{"timestamp", 5}});
                     f.settle();
                     srv->take();
                     srv->pending.clear();
                 }});
    v.push_back({"monitor", true, [](Fix &f, Transport, Conn *, int, int) {
                     bool ok;
                     f.w.monitor(true, &ok);
                     if (!ok)
                         f.bad("monitor");
                 }});
    v.push_back({"monitor with a bad request", false, [](Fix &f, Transport, Conn *, int, int) {
                     RawLink l(sim::rawUnixConnect(f.w.monitorPath().toLocal8Bit().constData()));
                     f.settle();
                     l.write("nonsense");
                     f.settle();
                     while (l.pump()) { }
                 }});
    v.push_back({"web socket: binary message", false, [](Fix &f, Transport t, Conn *, int, int) {
                     if (t != Ws && t != Wss)
                         return;
                     Conn *c = f.fresh(t);
                     c->peer->sendWs(2, "binary");
                     f.settle();
                     f.drop(c);
                 }});
    v.push_back({"web socket: close frame", false, [](Fix &f, Transport t, Conn *, int, int) {
                     if (t != Ws && t != Wss)
                         return;
                     Conn *c = f.fresh(t);
                     c->peer->sendWs(8, QByteArray("\x03\xe8", 2));
                     f.settle();
                     f.drop(c);
                 }});
    v.push_back({"web socket: no handshake", false, [](Fix &f, Transport t, Conn *, int, int n) {
                     if (t != Ws)
                         return;
                     RawLink l(sim::rawConnect(f.w.wsPort()));
                     f.settle();
                     l.write(n % 2 ? "GET / HTTP/1.1\r\nHost: x\r\n\r\n" : "GET / HT");
                     f.settle();
                     while (l.pump()) { }
                     l.close();
                     f.w.advance(11000); // QWebSocketServer gives up on a handshake after a while
                 }});
    v.push_back({"TLS: in the clear", false, [](Fix &f, Transport t, Conn *, int, int) {
                     if (t != Tls && t != Wss)
                         return;
                     RawLink l(sim::rawConnect(t == Tls ? f.w.tcpPort() : f.w.wsPort()));
                     f.settle();
                     l.write("{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n");
                     f.settle();
                     while (l.pump()) { }
                     f.w.advance(11000);
                     l.close();
                 }});
    v.push_back({"TLS: leaves within the handshake", false, [](Fix &f, Transport t, Conn *, int, int) {
                     if (t != Tls && t != Wss)
                         return;
                     RawLink l(sim::rawConnect(t == Tls ? f.w.tcpPort() : f.w.wsPort()));
                     f.settle();
                     l.write(QByteArray("\x16\x03\x01\x00\x70", 5));
                     f.settle();
                     l.close();
                     f.settle();
                     if (t == Wss)
                         f.w.advance(11000);
                 }});
    return v;
}

void resourceVisits(ListCheck &l, bool thorough)
{
    std::vector<VisitKind> kinds = visitKinds();
    for (Transport t : kAll)
        for (size_t k = 0; k < kinds.size(); ++k) {
            VisitKind v = kinds[k];
            l.add(QString("%1, visit: %2").arg(transportName(t), v.name), [t, v, thorough](Ctx &x) {
                ServerOptions o = optsFor({t});
                o.smallBuffers = QByteArray(v.name).contains("not read") || QByteArray(v.name).contains("unread");
                Fix f(x, o);
                Conn *srv = nullptr;
                if (v.needsServer)
                    srv = f.server(Unix, 1);
                auto once = [&](int n) {
                    v.run(f, t, srv, 1, n);
                    f.settle();
                    return f.ok && !x.failed;
                };
                for (int i = 0; i < 3; ++i)
                    if (!once(i))
                        return;
                Usage base = usage();
                for (int i = 0; i < 4; ++i) {
                    if (!once(i))
                        return;
                    if (!same(x, base, usage(), "after one more visit", QString("resource:kept:%1:%2").arg(transportName(t), v.name)))
                        return;
                }
                // nothing piles up either
                bool slow = t == Tls || t == Wss;
                int per = slow ? (thorough ? 40 : 8) : (thorough ? 100 : 30);
                if (QByteArray(v.name).contains("silent"))
                    per = 8;
                size_t at[5];
                for (int b = 0; b < 5; ++b) {
                    for (int i = 0; i < per; ++i)
                        if (!once(i))
                            return;
                    at[b] = usage().bytes;
                }
                if (!same(x, base, usage(), "after many visits", QString("resource:kept:%1:%2").arg(transportName(t), v.name)))
                    return;
                qint64 least = 1 << 30;
                for (int b = 1; b < 5; ++b)
                    least = std::min<qint64>(least, (qint64)at[b] - (qint64)at[b - 1]);
                if (x.verbose)
                    fprintf(stderr, "bytes per %d visits: %lld %lld %lld %lld\n", per, (long long)at[1] - (long long)at[0], (long long)at[2] - (long long)at[1], (long long)at[3] - (long long)at[2], (long long)at[4] - (long long)at[3]);
                if (least > per * 12)
                    x.fail("resource:memory", QString("every visit leaves about %1 bytes behind").arg(least / per));
            });
        }
    // for very long
    for (int k = 0; k < 3; ++k)
        for (int end = 0; end < 3; ++end)
            l.add(QString("started 300 times with configuration %1, end %2").arg(k).arg(end), [=](Ctx &x) {
                Life f(x);
                for (int i = 0; i < 300 && !x.failed; ++i) {
                    f.op(k);
                    f.op(LSettle);
                    if (i % 30 == 29) {
                        f.op(LVisit);
                        f.op(LMonitor);
                    }
                    if (end < 2)
                        f.op(end ? LDestroy : LStop);
                    f.visits.clear();
                    f.monitors.clear();
                    x.step();
                }
                f.op(k);
                f.op(LSettle);
                f.op(LVisit);
            });
    // the proxy itself
    for (int k = 0; k < 3; ++k)
        for (int visit = 0; visit < 3; ++visit)
            for (int end = 0; end < 3; ++end)
                l.add(QString("start with configuration %1, visit %2, end %3").arg(k).arg(visit).arg(end), [=](Ctx &x) {
                    auto once = [&]() {
                        Life f(x);
                        f.op(k);
                        f.op(LSettle);
                        if (visit)
                            f.op(visit == 1 ? LVisit : LMonitor);
                        if (end == 2) {
                            f.op(k);
                            f.op(LSettle);
                        }
                        f.op(end == 1 ? LDestroy : LStop);
                        f.op(LDestroy);
                        f.visits.clear();
                        f.monitors.clear();
                        f.w.settle();
                        return !x.failed;
                    };
                    for (int i = 0; i < 3; ++i)
                        if (!once())
                            return;
                    Usage base = usage();
                    size_t at[4];
                    for (int b = 0; b < 4; ++b) {
                        for (int i = 0; i < 5; ++i)
                            if (!once())
                                return;
                        at[b] = usage().bytes;
                        if (!same(x, base, usage(), "after another run"))
                            return;
                    }
                    qint64 least = 1 << 30;
                    for (int b = 1; b < 4; ++b)
                        least = std::min<qint64>(least, (qint64)at[b] - (qint64)at[b - 1]);
                    if (x.verbose)
                        fprintf(stderr, "bytes %lld %lld %lld\n", (long long)at[1] - (long long)at[0], (long long)at[2] - (long long)at[1], (long long)at[3] - (long long)at[2]);
                    if (least > 5 * 64)
                        x.fail("resource:memory", QString("every run leaves about %1 bytes behind").arg(least / 5));
                });
}

// every history of the model: when all have left, everything they brought is gone
std::vector<Op> resourceAlphabet(const MState &m)
{
    std::vector<Op> o;
    for (int i = 0; i < m.n; ++i) {
        const MSlot &s = m.s[i];
        switch (s.role) {
        case Gone:
            o.push_back({OpOpen, i, 0, 0});
            break;
        case Fresh:
            o.push_back({OpClose, i, 0, 0});
            if (i == 0)
                o.push_back({OpRegServer, i, 0, 0});
            else
                o.push_back({OpRegClient, i, i, 0});
            o.push_back({OpBad, i, 0, 0});
            o.push_back({OpHello, i, 0, 0});
            break;
        case Server:
            o.push_back({OpClose, i, 0, 0});
            for (int k = 1; k < m.n; ++k)
                if (m.s[k].addr >= 0) {
                    o.push_back({OpFrame, i, k, 1});
                    o.push_back({OpDisc, i, k, 0});
                }
            break;
        case Client:
            o.push_back({OpClose, i, 0, 0});
            o.push_back({OpData, i, 1, 0});
            break;
        }
    }
    o.push_back({OpTick, 0, 8500, 0});
    return o;
}

struct ResourceModel : ModelCheck {
    using ModelCheck::ModelCheck;
    void run(size_t i, Ctx &ctx) override
    {
        Usage base;
        {
            World w(ctx);
            if (!w.start(cfg.server))
                return;
            w.advance(100);
            base = usage();
        }
        atEnd = [base, &ctx](Lockstep &ls) {
            for (auto &c : ls.conns)
                if (c) {
                    c->close();
                    c.reset();
                }
            ls.world.settle();
            same(ctx, base, usage(), "all have left, the proxy");
            // and it serves on
            Conn c(ls.world, Unix);
            c.request("RemoteProxy.Hello");
            ls.world.settle();
            if (c.take().size() != 1)
                ctx.fail("resource:serves", "the proxy does not answer any more");
            c.close();
        };
        ModelCheck::run(i, ctx);
    }
};

Check *makeC18()
{
    MultiCheck *m = new MultiCheck;
    m->add("lifecycle", new LifeCheck);
    m->add("visits", new ListCheck("every kind of visit over every transport, repeated: objects, descriptors, timers and notifiers return to the same number after each, memory does not grow; every configuration started, visited, stopped", resourceVisits));
    for (auto ts : std::vector<std::vector<Transport>>{{Tcp, Tcp, Unix}, {Unix, Ws, Ws}, {Unix, Unix, Tcp}}) {
        LockstepConfig c;
        c.transports = ts;
        c.categories = 0;
        m->add("histories", new ResourceModel("histories", c, resourceAlphabet, 6));
    }
    return m;
}
} // namespace
static CheckReg rC18("C18", makeC18);

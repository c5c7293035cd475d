#include "fix.h"

#include "engine.h"

#include <cerrno>
#include <sys/resource.h>
#include <unistd.h>

// C32: a shortage passes. While the system gives the program no connections (no free descriptors, no
// memory for it, ...) everything that is connected is served, afterwards everybody is.

namespace {

enum Way { WTcp, WWs, WUnix, WMonitor, WCount };
const char *kWay[] = {"TCP", "web socket", "unix socket", "monitor"};

struct Short {
    Ctx &x;
    Fix f;
    bool tls;
    int patience = 0; // ms a new connection may take
    int uuids = 10;
    struct Tunnel {
        Conn *srv, *cl;
        int addr;
        Transport t;
    };
    std::vector<Tunnel> tunnels;
    struct Waiting {
        int way;
        Peer *peer = nullptr;
        std::unique_ptr<Conn> conn;
        std::unique_ptr<RawLink> mon;
        bool monSeen = false;
        bool newly = false; // while there was no shortage
    };
    std::vector<std::unique_ptr<Waiting>> waiting;
    std::unique_ptr<RawLink> mon; // a monitor that is there all the time

    static ServerOptions options(bool tls)
    {
        ServerOptions o;
        o.tls = tls;
        o.inactiveTimeout = 60000;
        return o;
    }
    Short(Ctx &c, bool withTls, bool used = true) : x(c), f(c, options(withTls)), tls(withTls)
    {
        if (f.ok && used)
            begin();
        else
            patience = 1000;
    }
    // Qt asks again and again in some cases
    static void shortage(int n, int err)
    {
        sim::failAccepts(n, err);
        g_disp->setBusy(40);
    }
    static void over()
    {
        sim::failAccepts(0, 0);
        g_disp->setBusy(0);
    }
    Transport transport(int way) { return way == WTcp ? (tls ? Tls : Tcp) : way == WWs ? (tls ? Wss : Ws) : Unix; }
    void begin()
    {
        for (int way = 0; way < WMonitor; ++way) {
            Tunnel t;
            t.t = transport(way);
            if (!tunnel(t, "at the start"))
                return;
            tunnels.push_back(t);
        }
        mon.reset(new RawLink(sim::rawUnixConnect(f.w.monitorPath().toLocal8Bit().constData())));
        f.settle();
    }
    bool fail(const QString &k, const QString &m)
    {
        x.fail("shortage:" + k, m);
        return false;
    }
    bool tunnel(Tunnel &t, const QString &when)
    {
        int su = ++uuids, cu = ++uuids;
        t.srv = f.fresh(t.t == Ws ? Tcp : t.t == Wss ? Tls : t.t);
        f.w.advance(patience);
        if (t.srv->peer->closed() || !t.srv->registerServer(uuidOf(su), "srv"))
            return fail("refused", when + QString(": no server can register for %1").arg(transportName(t.t)));
        t.cl = f.fresh(t.t);
        f.w.advance(patience);
        if (t.cl->peer->closed() || !t.cl->registerClient(uuidOf(cu), uuidOf(su), "cl"))
            return fail("refused", when + QString(": no client can register over %1").arg(transportName(t.t)));
        t.addr = f.announced(t.srv, cu);
        return works(t, when);
    }
    bool works(Tunnel &t, const QString &when)
    {
        if (t.srv->closed() || t.cl->closed())
            return fail("tunnel", when + QString(": a tunnel over %1 is gone").arg(transportName(t.t)));
        t.cl->sendRaw("to the server");
        t.srv->sendFrame((quint16)t.addr, "to the client");
        f.settle();
        if (Fix::data(t.srv->take(), t.addr) != "to the server" || Fix::data(t.cl->take()) != "to the client")
            return fail("tunnel", when + QString(": a tunnel over %1 does not carry data").arg(transportName(t.t)));
        x.step();
        return true;
    }
    bool monitorWorks(RawLink *l, const QString &when)
    {
        l->rx.clear();
        l->write("{\"method\":\"refresh\"}\n");
        for (int i = 0; i < 4; ++i) {
            f.settle();
            l->pump();
        }
        if (l->eof || !l->rx.endsWith("}\n") || !l->rx.contains("tunnelProxyStatistic"))
            return fail("monitor", when + ": a monitor gets no report");
        x.step();
        return true;
    }
    bool allWork(const QString &when)
    {
        for (Tunnel &t : tunnels)
            if (!works(t, when))
                return false;
        return !mon || monitorWorks(mon.get(), when);
    }
    bool connect(int way, bool settle = true)
    {
        std::unique_ptr<Waiting> w(new Waiting);
        w->way = way;
        if (way == WMonitor || way == WUnix) {
            // the socket may be away for the moment
            QString path = way == WUnix ? f.w.unixPath() : f.w.monitorPath();
            int fd = sim::rawUnixConnect(path.toLocal8Bit().constData());
            if (fd < 0) {
                f.settle();
                return true;
            }
            w->mon.reset(new RawLink(fd));
            if (way == WUnix) {
                w->peer = f.w.adopt(Unix, w->mon.release(), settle);
                w->conn.reset(new Conn(f.w, w->peer));
            }
        } else {
            w->conn.reset(new Conn(f.w, transport(way), settle));
            w->peer = w->conn->peer;
        }
        waiting.push_back(std::move(w));
        if (settle)
            f.settle();
        return !x.failed;
    }
    // what came in meanwhile is served or closed
    bool waitingServed()
    {
        for (auto &w : waiting) {
            if (w->way == WMonitor) {
                w->mon->pump();
                if (!w->mon->eof && !monitorWorks(w->mon.get(), "afterwards, connected meanwhile"))
                    return false;
                continue;
            }
            if (w->conn->closed())
                continue;
            Tunnel t;
            t.t = transport(w->way);
            t.cl = w->conn.get();
            int su = ++uuids, cu = ++uuids;
            t.srv = f.fresh(tls ? Tls : Tcp);
            f.w.advance(patience);
            if (!t.srv->registerServer(uuidOf(su), "srv"))
                return fail("refused", "afterwards: no server can register");
            if (!t.cl->registerClient(uuidOf(cu), uuidOf(su), "cl"))
                return fail("waiting", QString("a connection over %1 that came in meanwhile is neither served nor closed").arg(transportName(t.t)));
            t.addr = f.announced(t.srv, cu);
            if (!works(t, "afterwards, connected meanwhile"))
                return false;
        }
        return true;
    }
    // some seconds behind the end of the shortage
    bool afterwards()
    {
        f.w.advance(5000);
        if (x.failed || !allWork("afterwards"))
            return false;
        if (!waitingServed())
            return false;
        for (int k = 0; k < 2; ++k)
            for (int way = 0; way < WCount; ++way) {
                if (way >= WUnix) {
                    QString path = way == WUnix ? f.w.unixPath() : f.w.monitorPath();
                    int fd = sim::rawUnixConnect(path.toLocal8Bit().constData());
                    if (fd < 0)
                        return fail("away", QString("afterwards: the %1 does not accept connections").arg(way == WUnix ? "unix socket" : "monitor socket"));
                    RawLink l(fd);
                    f.settle();
                    if (way == WMonitor && !monitorWorks(&l, "afterwards"))
                        return false;
                    l.close();
                    f.settle();
                    if (way == WMonitor)
                        continue;
                }
                Tunnel t;
                t.t = transport(way);
                if (!tunnel(t, "afterwards"))
                    return false;
            }
        return true;
    }
    ~Short()
    {
        over();
        mon.reset();
        waiting.clear();
    }
};

struct Err {
    int e;
    const char *name;
};
const Err kErrs[] = {{EMFILE, "EMFILE"}, {ENFILE, "ENFILE"}, {ENOBUFS, "ENOBUFS"}, {ENOMEM, "ENOMEM"}, {ECONNABORTED, "ECONNABORTED"}, {EPERM, "EPERM"}, {EPROTO, "EPROTO"}, {ENETDOWN, "ENETDOWN"}, {EHOSTUNREACH, "EHOSTUNREACH"}};

ListCheck *refusals()
{
    return new ListCheck("every error accept() can give for want of resources or of the connection's own, for 1 to 3 times or for periods up to a minute, x up to 3 (thorough: 4) connections over each way (TCP, web socket, unix socket, monitor; with and without TLS) that come in meanwhile",
        [](ListCheck &l, bool thorough) {
            for (int kind = 0; kind < 4; ++kind)
                for (int way = 0; way < WCount; ++way)
                    for (const Err &e : kErrs)
                        for (int n : thorough ? std::vector<int>{1, 2, 3, -300, -1500, -10000, -60000} : std::vector<int>{1, 3, -300, -10000})
                            for (int conns : thorough ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 3})
                                l.add(QString("%1%2: %3 for %4, %5 connections").arg(kWay[way], kind == 0 ? "" : kind == 1 ? " (TLS)" : kind == 2 ? " (first ones)" : " (TLS, first ones)", e.name, n > 0 ? QString("%1 calls").arg(n) : QString("%1 ms").arg(-n)).arg(conns), [=](Ctx &x) {
                                    Short s(x, kind & 1, kind < 2);
                                    if (x.failed)
                                        return;
                                    s.shortage(n > 0 ? n : -1, e.e);
                                    for (int i = 0; i < conns; ++i)
                                        if (!s.connect(way))
                                            return;
                                    if (!s.allWork("meanwhile"))
                                        return;
                                    for (int t = 0; n < 0 && t < -n; t += 15000) {
                                        s.f.w.advance(std::min(15000, -n - t));
                                        if (x.failed || !s.allWork("meanwhile"))
                                            return;
                                    }
                                    if (n < 0)
                                        s.over();
                                    else
                                        s.f.w.advance(n * 1500);
                                    s.over();
                                    s.afterwards();
                                });
        });
}

enum ShortOp { SBegin, SEnd, SConnTcp, SConnWs, SConnUnix, SConnMon, SPass, SRestart, SLeave, SKinds };
const char *kShortOp[] = {"shortage", "end of it", "TCP connection", "web socket connection", "unix socket connection", "monitor connection", "1.5 s", "restart", "a waiting one leaves"};

ListCheck *histories()
{
    return new ListCheck("all sequences of up to 4 (thorough: 5) steps out of: begin and end of a shortage, a connection over each way, 1.5 s, restart of the proxy, a waiting connection leaves",
        [](ListCheck &l, bool thorough) {
            std::function<void(std::vector<int> &, int)> rec = [&](std::vector<int> &p, int depth) {
                bool any = std::count(p.begin(), p.end(), (int)SBegin) > 0;
                if (any) {
                    QStringList names;
                    for (int o : p)
                        names << kShortOp[o];
                    std::vector<int> ops = p;
                    l.add(names.join(", "), [ops](Ctx &x) {
                        Short s(x, false);
                        for (int o : ops) {
                            if (x.failed)
                                return;
                            switch (o) {
                            case SBegin:
                                s.shortage(-1, EMFILE);
                                break;
                            case SEnd:
                                s.over();
                                break;
                            case SPass:
                                s.f.w.advance(1500);
                                break;
                            case SLeave:
                                if (!s.waiting.empty()) {
                                    if (s.waiting[0]->conn)
                                        s.waiting[0]->conn->close();
                                    else
                                        s.waiting[0]->mon->close();
                                    s.waiting.erase(s.waiting.begin());
                                }
                                s.f.settle();
                                break;
                            case SRestart: {
                                remoteproxy::ProxyConfiguration *c = s.f.w.configure(s.f.w.opts);
                                remoteproxy::Engine::instance()->stop();
                                remoteproxy::Engine::instance()->start(c);
                                s.patience = 1000;
                                s.tunnels.clear();
                                s.mon.reset();
                                s.f.settle();
                                if (!remoteproxy::Engine::instance()->running())
                                    return x.fail("shortage:restart", "not running after the restart");
                                break;
                            }
                            default:
                                s.connect(o - SConnTcp);
                            }
                            if (!x.failed)
                                s.allWork(QString("behind '%1'").arg(kShortOp[o]));
                        }
                        s.over();
                        if (!x.failed)
                            s.afterwards();
                    });
                }
                if (depth == 0)
                    return;
                for (int o = 0; o < SKinds; ++o) {
                    bool on = false;
                    int conns = 0;
                    for (int q : p) {
                        if (q == SBegin)
                            on = true;
                        if (q == SEnd)
                            on = false;
                        if (q >= SConnTcp && q <= SConnMon)
                            conns++;
                        if (q == SLeave)
                            conns--;
                    }
                    if ((o == SBegin && on) || (o == SEnd && !on) || (o == SLeave && conns < 1))
                        continue;
                    p.push_back(o);
                    rec(p, depth - 1);
                    p.pop_back();
                }
            };
            std::vector<int> p;
            rec(p, thorough ? 5 : 4);
        });
}

// While it exists, so many descriptors are free.
struct Limit {
    struct rlimit old;
    std::vector<int> fill;
    explicit Limit(int freeOnes)
    {
        getrlimit(RLIMIT_NOFILE, &old);
        for (int i = 0; i < 64; ++i)
            fill.push_back(dup(0));
        struct rlimit now = old;
        now.rlim_cur = (rlim_t)(fill.back() + 1 + freeOnes);
        setrlimit(RLIMIT_NOFILE, &now);
    }
    ~Limit()
    {
        setrlimit(RLIMIT_NOFILE, &old);
        for (int fd : fill)
            ::close(fd);
    }
};

ListCheck *limits()
{
    return new ListCheck("a real limit of descriptors: 6 connections over each way come in when 0 to 6 descriptors are free; then 0 to 4 of them leave, then the limit is lifted",
        [](ListCheck &l, bool) {
            for (int way = 0; way < WCount; ++way)
                for (int left = 0; left <= 6; ++left)
                    for (int leave = 0; leave <= 4; ++leave)
                        l.add(QString("%1: %2 descriptors free, %3 leave").arg(kWay[way]).arg(left).arg(leave), [=](Ctx &x) {
                            Short s(x, false);
                            if (x.failed)
                                return;
                            for (int i = 0; i < 6; ++i)
                                s.connect(way, false); // none is accepted yet
                            s.shortage(0, 0);
                            std::unique_ptr<Limit> limit(new Limit(left));
                            s.f.settle();
                            bool ok = s.allWork("out of descriptors");
                            for (int i = 0; ok && i < leave && !s.waiting.empty(); ++i) {
                                if (s.waiting[0]->conn)
                                    s.waiting[0]->conn->close();
                                else
                                    s.waiting[0]->mon->close();
                                s.waiting.erase(s.waiting.begin());
                                s.f.w.advance(1500);
                                ok = s.allWork("one left");
                            }
                            limit.reset();
                            s.over();
                            if (ok)
                                s.afterwards();
                        });
        });
}

CheckReg r32("C32", [] {
    MultiCheck *m = new MultiCheck;
    m->add("refusals", refusals());
    m->add("histories", histories());
    m->add("limits", limits());
    return m;
});
} // namespace

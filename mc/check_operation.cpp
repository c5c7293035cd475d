// C13 idle rules, C14 TLS only, C15 transport equivalence, C16 monitor report, C17 monitor interface
#include "fix.h"
#include "crowd.h"
#include "model.h"
#include "race.h"

#include <QJsonArray>
#include <QSet>
#include <set>
#include <sys/socket.h>
#include <unistd.h>

// ---- C13 ----------------------------------------------------------------------------------------
// Time passes in steps that end clearly before or clearly behind the next deadline.
static const int kBefore = 700, kBehind = 1300, kGrey = 600;

static void idleTicks(const MState &s, std::vector<Op> &ops)
{
    std::set<qint64> due, steps;
    for (int i = 0; i < s.n; ++i) {
        if (s.s[i].role == Fresh)
            due.insert(s.inactiveTimeout - s.s[i].idle);
        if (s.s[i].role == Server)
            due.insert(60000 - s.s[i].idle);
    }
    for (qint64 d : due) {
        if (d - kBefore > 0)
            steps.insert(d - kBefore);
        steps.insert(d + kBehind);
    }
    if (due.empty())
        steps.insert(200000); // nobody is due: nothing may happen
    for (qint64 st : steps) {
        bool clear = true; // no deadline falls into the grey zone around the end of the step
        for (qint64 d : due)
            clear = clear && (st < d - kGrey || st > d + 1200);
        if (clear)
            ops.push_back({OpTick, 0, (int)st, 0});
    }
}

static ModelCheck *idleModel(const QString &name, const std::vector<Transport> &t, int timeout, int depth)
{
    LockstepConfig c;
    c.transports = t;
    c.server.inactiveTimeout = timeout;
    for (Transport x : t)
        if (x == Tls || x == Wss)
            c.server.tls = true;
    c.categories = CatClose | CatLivelock;
    return new ModelCheck(name, c, [t](const MState &s) {
        std::vector<Op> ops;
        for (int i = 0; i < s.n; ++i) {
            const MSlot &x = s.s[i];
            if (x.role == Gone) {
                if (i == 0 || s.s[i - 1].role != Gone || t[i] != t[i - 1])
                    ops.push_back({OpOpen, i, 0, 0});
            } else if (x.role == Fresh) {
                ops.push_back({OpHello, i, 0, 0});
                if (t[i] != Ws && t[i] != Wss)
                    ops.push_back({OpRegServer, i, 1 + i, 0});
                for (int k = 0; k < s.n; ++k)
                    if (s.s[k].role == Server)
                        ops.push_back({OpRegClient, i, 10 + i, s.s[k].uuid});
            } else if (x.role == Client) {
                ops.push_back({OpData, i, 0, 0});
            } else {
                ops.push_back({OpPing, i, 0, 0});
                for (int k = 0; k < s.n; ++k)
                    if (s.s[k].role == Client && s.s[k].server == i)
                        ops.push_back({OpFrame, i, k, 0});
            }
        }
        idleTicks(s, ops);
        return ops;
    }, depth);
}

// closed within (early, late] of the moment it was opened, whatever it does
static void expectTimeout(Ctx &x, Fix &f, Conn *c, qint64 early, qint64 late, const QString &what, std::function<void()> meanwhile, int stepMs = 250)
{
    qint64 t0 = sim::nowNs() / 1000000;
    for (;;) {
        qint64 t = sim::nowNs() / 1000000 - t0;
        if (c->closed()) {
            x.step();
            if (t < early)
                x.fail("idle:early", QString("%1: closed after %2 ms already").arg(what).arg(t));
            return;
        }
        if (t > late)
            return x.fail("idle:open", QString("%1: still open after %2 ms").arg(what).arg(t));
        if (meanwhile)
            meanwhile();
        if (t < early)
            f.w.advance(std::min<qint64>(stepMs, early - t));
        else
            f.w.advance(std::min<qint64>(stepMs, late + 1 - t));
    }
}

static void c13List(ListCheck &l, bool thorough)
{
    // without a registration the time is up at inactiveTimeout, whatever the connection says meanwhile
    struct Talk {
        const char *name;
        QByteArray bytes; // sent every 250 ms
        int pieces;       // or: this many bytes of it each time
    };
    std::vector<Talk> talks = {{"silence", "", 0}, {"Hello requests", ref::request(3, "RemoteProxy.Hello"), 0}, {"Ping requests", ref::request(3, "TunnelProxy.Ping", {{"timestamp", 5}}), 0}, {"null uuid registrations", ref::request(4, "TunnelProxy.RegisterServer", regServer(QUuid(), "x")), 0}, {"a request that trickles in", ref::request(5, "TunnelProxy.RegisterServer", regServer(uuidOf(9), QString(5000, 'x'))), 7}, {"blanks", " ", 0}};
    for (Transport t : kAll)
        for (int timeout : {1000, 1900, 8000, 8900, 60000, 90000})
            for (const Talk &k : talks) {
                if (timeout > 8000 && (k.pieces || t == Tls || t == Wss) && !thorough)
                    continue;
                if ((t == Ws || t == Wss) && (k.pieces || k.bytes == " "))
                    continue;
                l.add(QString("unregistered on %1, inactiveTimeout %2, %3").arg(transportName(t)).arg(timeout).arg(k.name), [=](Ctx &x) {
                    ServerOptions o = optsFor({t});
                    o.inactiveTimeout = timeout;
                    Fix f(x, o);
                    int a = -1;
                    Conn *srv = f.server(Unix, 1);
                    Conn *cl = f.client(Unix, 11, 1, srv, &a);
                    Conn *c = f.fresh(t);
                    int sent = 0;
                    qint64 ping = 0;
                    expectTimeout(x, f, c, timeout - 500, timeout + 1200, k.name, [&] {
                        if (sim::nowNs() / 1000000 - ping > 20000) {
                            ping = sim::nowNs() / 1000000;
                            srv->request("TunnelProxy.Ping", {{"timestamp", 1}});
                        }
                        if (c->closed() || k.bytes.isEmpty())
                            return;
                        if (k.pieces) {
                            if (sent < k.bytes.size() - k.pieces - 2)
                                c->sendRaw(k.bytes.mid(sent, k.pieces));
                            sent += k.pieces;
                        } else {
                            c->sendRaw(k.bytes);
                        }
                        f.settle();
                    });
                    srv->take();
                    if (!x.failed)
                        f.works(cl, srv, a, "bystander");
                });
            }
    // many connections, opened one after the other, each has its own time
    for (Transport t : {Tcp, Unix, Ws})
        l.add(QString("eight connections opened at intervals on %1").arg(transportName(t)), [=](Ctx &x) {
            Fix f(x);
            std::vector<std::pair<Conn *, qint64>> cs;
            for (int i = 0; i < 8; ++i) {
                cs.push_back({f.fresh(t), sim::nowNs() / 1000000});
                f.w.advance(900);
            }
            for (int k = 0; k < 100 && !x.failed; ++k) {
                qint64 now = sim::nowNs() / 1000000;
                for (auto &c : cs) {
                    x.step();
                    if (c.first->closed() && now < c.second + 8000 - 500)
                        return x.fail("idle:early", "closed before its time");
                    if (!c.first->closed() && now > c.second + 8000 + 1200)
                        return x.fail("idle:open", "open after its time");
                }
                f.w.advance(200);
            }
        });
    // what a server does to stay connected: any byte received counts, whatever it belongs to
    struct Sign {
        const char *name;
        std::function<QByteArray(int)> bytes;
    };
    std::vector<Sign> signs = {
        {"a ping", [](int) { return ref::frame(0, ref::request(7, "TunnelProxy.Ping", {{"timestamp", 5}})); }},
        {"tunnel data", [](int a) { return ref::frame((quint16)a, "x"); }},
        {"data for an unknown address", [](int) { return ref::frame(999, "x"); }},
        {"one END byte", [](int) { return QByteArray("\xC0", 1); }},
        {"a damaged frame", [](int) { return QByteArray("\xDB\x01\xC0", 3); }},
        {"a byte of a frame", [](int) { return QByteArray("\x00", 1); }},
    };
    for (Transport t : kStream)
        for (const Sign &s : signs)
            l.add(QString("a server on %1 that sends %2 now and then stays, then silence ends it").arg(transportName(t), s.name), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                int a = -1;
                Conn *srv = f.server(t, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                for (int k = 0; k < 4 && !x.failed; ++k) {
                    f.w.advance(59000);
                    x.step();
                    if (srv->closed())
                        return x.fail("idle:early", QString("the server was closed 59 s after %1").arg(s.name));
                    if (cl->closed())
                        return x.fail("idle:client", "the client was closed");
                    srv->sendRaw(s.bytes(a));
                    f.settle();
                }
                expectTimeout(x, f, srv, 59000, 61500, "silence", nullptr, 5000);
                if (!x.failed && !cl->closed())
                    x.fail("idle:clientopen", "the client of the lost server stayed open");
                if (x.failed)
                    return;
                // the identities are free again
                Conn *s2 = f.server(t, 1);
                int a2 = -1;
                Conn *c2 = f.client(Unix, 11, 1, s2, &a2);
                if (!x.failed)
                    f.works(c2, s2, a2, "after the timeout");
            });
    // what the proxy sends to a server does not show that the server is alive
    for (Transport t : kStream)
        for (int what = 0; what < 3; ++what)
            l.add(QString("a silent server on %1 that is sent %2 is ended").arg(transportName(t), what == 0 ? "tunnel data" : what == 1 ? "connect notifications" : "disconnect notifications"), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                int a = -1;
                Conn *srv = f.server(t, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                int n = 0;
                Conn *extra = nullptr;
                expectTimeout(x, f, srv, 59000, 61500, "a silent server", [&] {
                    if (what == 0) {
                        cl->sendRaw("tick");
                        f.settle();
                        srv->take();
                        srv->pending.clear();
                    } else {
                        if (extra)
                            f.drop(extra);
                        extra = nullptr;
                        f.settle();
                        if (what == 1 || (n & 1)) {
                            extra = f.fresh(Unix);
                            extra->registerClient(uuidOf(20 + n), uuidOf(1), "guest");
                        }
                        n++;
                    }
                }, 4000);
            });
    // what a server sent before does not count, however much it was
    for (Transport t : {Tcp, Unix, Tls})
        for (int chunk : {1, 999, 65536})
            l.add(QString("a server on %1 that has sent more and more, in pieces of %2").arg(transportName(t)).arg(chunk), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                Conn *srv = f.server(t, 1);
                long sent = 0;
                for (long total : {1L, 127L, 255L, 256L, 1000L, 4095L, 10240L, 32767L, 65535L, 65536L, 100000L, 131072L, 1000000L, 1048576L, 10000000L, 33554432L}) {
                    if (total > chunk * 3000L)
                        break;
                    while (sent < total) {
                        int n = (int)std::min<long>(chunk, total - sent);
                        srv->sendRaw(QByteArray(n, (char)0xC0));
                        sent += n;
                        f.settle();
                    }
                    for (int k = 0; k < 4 && !x.failed; ++k) { // odd and even amounts
                        f.w.advance(40000);
                        srv->sendRaw(QByteArray(1, (char)0xC0));
                        sent++;
                        f.settle();
                        x.step();
                        if (srv->closed())
                            return x.fail("idle:early", QString("closed although it sends every 40 s, after %1 bytes").arg(sent));
                    }
                }
                f.w.advance(58000);
                f.settle();
                if (srv->closed())
                    return x.fail("idle:early", QString("closed after 58 s of silence and %1 bytes").arg(sent));
                f.w.advance(4000);
                f.settle();
                if (!srv->closed())
                    x.fail("idle:late", QString("open after 62 s of silence and %1 bytes").arg(sent));
            });
    // clients have no time limit of their own
    for (Transport t : kAll)
        l.add(QString("a client on %1 is silent for a day").arg(transportName(t)), [=](Ctx &x) {
            Fix f(x, optsFor({t}));
            int a = -1;
            Conn *srv = f.server(compatible(t, Tcp) ? Tcp : Unix, 1);
            Conn *cl = f.client(t, 11, 1, srv, &a);
            for (int k = 0; k < (thorough ? 1728 : 240) && !x.failed; ++k) {
                f.w.advance(k < 100 ? 50000 : 50000);
                srv->request("TunnelProxy.Ping", {{"timestamp", k}});
                f.settle();
                x.step();
                if (cl->closed() || srv->closed())
                    return x.fail("idle:client", QString("closed after %1 s").arg(k * 50));
            }
            srv->take();
            srv->pending.clear();
            f.works(cl, srv, a, "after a day");
        });
    // a registration in time ends the first limit for good, whatever its value
    for (Transport t : kAll)
        for (int timeout : {2000, 8000, 30000, 59000, 100000})
            for (int asServer = 0; asServer < 2; ++asServer) {
                if (asServer && (t == Ws || t == Wss))
                    continue;
                l.add(QString("registered as %1 on %2 shortly before inactiveTimeout %3").arg(asServer ? "server" : "client", transportName(t)).arg(timeout), [=](Ctx &x) {
                    ServerOptions o = optsFor({t});
                    o.inactiveTimeout = timeout;
                    Fix f(x, o);
                    Conn *srv = f.server(Unix, 1);
                    Conn *c = f.fresh(t);
                    qint64 left = timeout - 600;
                    while (left > 0) {
                        qint64 st = std::min<qint64>(left, 25000);
                        f.w.advance(st);
                        left -= st;
                        srv->request("TunnelProxy.Ping", {{"timestamp", 3}});
                        f.settle();
                    }
                    srv->take();
                    bool ok = asServer ? c->registerServer(uuidOf(2)) : c->registerClient(uuidOf(11), uuidOf(1));
                    x.step();
                    if (!ok)
                        return x.fail("idle:early", "the registration in time was refused");
                    for (int k = 0; k < 3; ++k) {
                        f.w.advance(50000);
                        srv->request("TunnelProxy.Ping", {{"timestamp", 3}});
                        if (asServer)
                            c->request("TunnelProxy.Ping", {{"timestamp", 3}});
                        f.settle();
                        x.step();
                        if (c->closed())
                            return x.fail("idle:registered", QString("closed within %1 s after the registration").arg((k + 1) * 50));
                    }
                });
            }
    // a peer that neither sends nor reads, with output waiting for it in the proxy, is ended too
    for (Transport t : {Tcp, Unix})
        for (int asServer = 0; asServer < 2; ++asServer)
            l.add(QString("a %1 on %2 that does not read either").arg(asServer ? "silent server" : "new connection", transportName(t)), [=](Ctx &x) {
                ServerOptions o;
                o.smallBuffers = true;
                Fix f(x, o);
                Conn *s2 = f.server(Unix, 2);
                Conn *c = asServer ? f.server(t, 1) : f.fresh(t);
                Conn *cl = asServer ? f.fresh(Unix) : nullptr;
                if (asServer && !cl->registerClient(uuidOf(11), uuidOf(1)))
                    return f.bad("registration");
                c->peer->link->stalled = true;
                if (asServer) {
                    cl->sendRaw(QByteArray(40000, 'x'));
                } else {
                    for (int i = 0; i < 100; ++i)
                        c->sendRaw(ref::request(i, "RemoteProxy.Introspect"));
                }
                f.settle();
                f.w.advance(asServer ? 58000 : 7000);
                s2->request("TunnelProxy.Ping", {{"timestamp", 3}});
                for (int i = 0; i < 6; ++i) { // generously
                    f.w.advance(40000);
                    s2->request("TunnelProxy.Ping", {{"timestamp", 3}});
                    f.settle();
                }
                bool ok = false;
                QVariantMap st = f.w.monitor(true, &ok).value("tunnelProxyStatistic").toMap();
                x.step();
                if (st.value("totalClientCount").toInt() != 1)
                    return x.fail(QString("idle:stalled:%1:%2").arg(asServer ? "server" : "fresh", transportName(t)), QString("four minutes after the limit the proxy still holds the connection (%1 connections, %2 servers)").arg(st.value("totalClientCount").toInt()).arg(st.value("serverConnectionsCount").toInt()));
            });
}

static Check *makeC13()
{
    MultiCheck *m = new MultiCheck;
    bool th = g_thorough;
    m->add("model", idleModel("time passes up to just before and just behind every deadline", {Tcp, Tcp, Tcp}, 8000, th ? 8 : 6));
    m->add("model", idleModel("the same, mixed transports", {Unix, Ws, Unix}, 8000, th ? 7 : 5));
    m->add("model", idleModel("the same, long inactiveTimeout", {Tcp, Unix}, 100000, th ? 8 : 6));
    m->add("model", idleModel("the same, short inactiveTimeout", {Unix, Tcp}, 3000, th ? 8 : 6));
    m->add("model", idleModel("the same, TLS", {Tls, Wss}, 8000, th ? 6 : 5));
    m->add("cases", new ListCheck("six kinds of talk without a registration on five transports with four timeouts; six signs of life; one-way traffic; a client silent for a day; registrations just in time; peers that do not read", c13List));
    return m;
}
static CheckReg rC13("C13", makeC13);

// ---- C14 ----------------------------------------------------------------------------------------
// A TLS client whose bytes pass through the harness, which can cut, delay or withhold them.
class RelayLink : public Link
{
public:
    enum Mode { Whole, Bytewise, Held }; // how bytes go on: as they come, one at a time, all that is there when nothing else moves
    RelayLink(quint16 target, Mode m) : mode(m)
    {
        static const quint16 kPort = 9443;
        int l = sim::rawListen(kPort);
        client.reset(new TlsLink(kPort));
        // the connection completes with the next turns of the loop
        for (int i = 0; i < 10 && fd < 0; ++i) {
            g_disp->settle();
            fd = ::accept(l, nullptr, nullptr);
        }
        ::close(l);
        near.reset(new RawLink(fd));
        far.reset(new RawLink(sim::rawConnect(target)));
    }
    ~RelayLink() override { close(); }
    void write(const QByteArray &d) override { client->write(d); }
    bool pump() override
    {
        bool moved = client->pump();
        if (!client->rx.isEmpty()) {
            rx += client->rx;
            client->rx.clear();
        }
        moved = near->pump() || moved;
        up += near->rx;
        near->rx.clear();
        if (!stalled) {
            moved = far->pump() || moved;
            if (!far->rx.isEmpty()) {
                near->write(far->rx);
                far->rx.clear();
                moved = true;
            }
        }
        if (!up.isEmpty() && passed < limit && !(mode == Held && moved)) {
            int n = mode == Bytewise ? 1 : up.size();
            n = (int)std::min<qint64>(n, limit - passed);
            far->write(up.left(n));
            up = up.mid(n);
            passed += n;
            moved = true;
        }
        if (far->eof && !eof) {
            eof = true;
            moved = true;
        }
        return moved;
    }
    void shutdownWrite() override { far->shutdownWrite(); }
    void close() override
    {
        client->close();
        near->close();
        far->close();
        eof = true;
    }
    bool opened() const override { return client->opened(); }
    Mode mode;
    qint64 limit = 1LL << 40; // bytes of the client that get through
    qint64 passed = 0;
    QByteArray up; // held back
    std::unique_ptr<TlsLink> client;
    std::unique_ptr<RawLink> near, far;

private:
    int fd = -1;
};

static QByteArray lastRaw; // what came back in the clear, for the message

// Bytes in the clear arrive at an encrypted port: no answer in the clear, no effect, and the connection ends.
static void runClear(Ctx &x, quint16 port, const QByteArray &bytes, int chunk, int limitMs)
{
    ServerOptions o;
    o.tls = true;
    Fix f(x, o);
    int a = -1;
    Conn *srv = f.server(Tls, 1);
    Conn *cl = f.client(Unix, 11, 1, srv, &a);
    if (x.failed)
        return;
    Conn *c = f.adopt(Tcp, new RawLink(sim::rawConnect(port)));
    f.settle();
    for (int i = 0; i < bytes.size(); i += chunk) {
        c->sendRaw(bytes.mid(i, chunk));
        f.settle();
    }
    x.step();
    qint64 t0 = sim::nowNs() / 1000000;
    while (!c->closed() && sim::nowNs() / 1000000 - t0 <= limitMs)
        f.w.advance(250);
    QByteArray got = c->peer->take();
    x.outcome(got.left(1));
    if (got.contains("{") || got.contains("HTTP/1.1 101") || got.contains("RemoteProxy"))
        return x.fail("clear:answer", QString("an answer in the clear: %1").arg(QString(got.left(100))));
    if (!c->closed())
        return x.fail("clear:open", QString("the connection is still open %1 ms later").arg(limitMs));
    bool ok = false;
    QVariantMap st = f.w.monitor(true, &ok).value("tunnelProxyStatistic").toMap();
    if (st.value("totalClientCount").toInt() != 2 || st.value("serverConnectionsCount").toInt() != 1 || st.value("clientConnectionsCount").toInt() != 1)
        return x.fail("clear:effect", "bytes in the clear had an effect on the registrations");
    if (!f.silent(srv, "bystander server") || !f.silent(cl, "bystander client"))
        return;
    f.works(cl, srv, a, "bystander");
}

static void c14List(ListCheck &l, bool thorough)
{
    const int tcpLimit = 6500, wsLimit = 12000;
    QByteArray reg = ref::request(1, "TunnelProxy.RegisterServer", regServer(uuidOf(5), "plain"));
    QByteArray regc = ref::request(1, "TunnelProxy.RegisterClient", regClient(uuidOf(6), uuidOf(1), "plain"));
    QByteArray hello = ref::request(1, "RemoteProxy.Hello");
    QByteArray up = "GET / HTTP/1.1\r\nHost: 127.0.0.1:2212\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
    QByteArray wsHello("\x81\x80\x00\x00\x00\x00", 6);
    wsHello[1] = (char)(0x80 | hello.size());
    wsHello += hello;
    std::vector<std::pair<QString, QByteArray>> cat = {
        {"nothing", ""}, {"a server registration", reg}, {"a client registration", regc}, {"Hello", hello}, {"three requests", hello + reg + regc}, {"a frame", ref::frame(0, reg)}, {"a web socket upgrade", up}, {"an upgrade and a request", up + wsHello}, {"GET", "GET / HTTP/1.0\r\n\r\n"}, {"END bytes", QByteArray(200, '\xC0')}, {"a kilobyte of zeros", QByteArray(1000, 0)}, {"twenty kilobytes", QByteArray(20000, 'x')}, {"SSLv2", QByteArray("\x80\x2e\x01\x00\x02\x00\x15\x00\x00\x00\x10", 11) + QByteArray(37, 1)}, {"an alert record", QByteArray("\x15\x03\x03\x00\x02\x02\x28", 7)}, {"application data records", QByteArray("\x17\x03\x03\x00\x40", 5) + QByteArray(64, '{')}, {"a record header that promises 16 kB", QByteArray("\x16\x03\x01\x40\x00", 5)}, {"a huge record header", QByteArray("\x16\x03\x01\xff\xff", 5)}, {"a change cipher spec", QByteArray("\x14\x03\x03\x00\x01\x01", 6)},
    };
    for (auto &c : cat)
        for (int ws = 0; ws < 2; ++ws)
            for (int chunk : {1, 5, 100000}) {
                if (chunk == 1 && c.second.size() > 300)
                    continue;
                l.add(QString("%1 in the clear at the encrypted %2 port, in pieces of %3").arg(c.first, ws ? "web socket" : "tcp").arg(chunk), [=](Ctx &x) { runClear(x, ws ? World::kWsPort : World::kTcpPort, c.second, chunk, ws ? wsLimit : tcpLimit); });
            }
    // any first byte
    for (int b = 0; b < 256; b += 1)
        l.add(QString("first byte %1, then a registration, at the encrypted tcp port").arg(b), [=](Ctx &x) { runClear(x, World::kTcpPort, QByteArray(1, (char)b) + reg, 100000, tcpLimit); });
    // many of them
    for (Transport t : {Tls, Wss})
        for (int kind = 0; kind < 3; ++kind)
            l.add(QString("seventy connections to %1 %2, then a proper one").arg(transportName(t), kind == 0 ? "leave without a handshake" : kind == 1 ? "talk in the clear" : "send nothing"), [=](Ctx &x) {
                ServerOptions o;
                o.tls = true;
                Fix f(x, o);
                int a = -1;
                Conn *srv = f.server(Tls, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                for (int i = 0; i < 70; ++i) {
                    Conn *c = f.adopt(Tcp, new RawLink(sim::rawConnect(t == Tls ? World::kTcpPort : World::kWsPort)));
                    if (kind == 1)
                        c->sendRaw(hello);
                    if (kind != 2)
                        f.drop(c);
                    f.settle();
                    x.step();
                }
                Conn *c = f.fresh(t);
                c->request("RemoteProxy.Hello");
                f.settle();
                if (c->take().size() != 1)
                    return x.fail(QString("handshake:exhausted:%1:%2").arg(transportName(t)).arg(kind), "a proper connection is not served afterwards");
                f.works(cl, srv, a, "bystander");
            });
    // a handshake that is cut off anywhere
    for (int lim = 0; lim < 700; lim += thorough ? 1 : (lim < 80 ? 4 : 9))
        for (int cutMode = 0; cutMode < 2; ++cutMode)
            l.add(QString("a handshake of which %1 bytes get through, then %2").arg(lim).arg(cutMode ? "the end" : "silence"), [=](Ctx &x) {
                ServerOptions o;
                o.tls = true;
                Fix f(x, o);
                int a = -1;
                Conn *srv = f.server(Tls, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                RelayLink *r = new RelayLink(World::kTcpPort, RelayLink::Whole);
                r->limit = lim;
                Conn *c = f.adopt(Tls, r, false);
                f.settle();
                c->sendRaw(ref::request(1, "TunnelProxy.RegisterServer", regServer(uuidOf(5), "plain")));
                f.settle();
                x.step();
                if (cutMode)
                    r->shutdownWrite();
                qint64 t0 = sim::nowNs() / 1000000;
                bool whole = r->passed < lim;
                x.outcome(whole ? "complete" : "incomplete");
                if (whole) { // everything got through
                    auto ev = c->take();
                    if (ev.size() != 1 || ev[0].error != "TunnelProxyErrorNoError")
                        return x.fail("handshake:refused", "a complete handshake and registration was not served");
                    return;
                }
                // the limit for a handshake is 5 s; behind it, what is not registered has inactiveTimeout
                while (!c->closed() && sim::nowNs() / 1000000 - t0 <= 14500)
                    f.w.advance(250);
                if (!c->closed())
                    return x.fail("handshake:open", "an incomplete handshake is still open");
                if (sim::nowNs() / 1000000 - t0 > 6500 && !c->peer->link->opened())
                    return x.fail("handshake:late", QString("an incomplete handshake was kept %1 ms").arg(sim::nowNs() / 1000000 - t0));
                bool ok = false;
                QVariantMap st = f.w.monitor(true, &ok).value("tunnelProxyStatistic").toMap();
                if (st.value("totalClientCount").toInt() != 2 || st.value("serverConnectionsCount").toInt() != 1)
                    return x.fail("handshake:effect", "an incomplete handshake had an effect on the registrations");
                if (!f.silent(srv, "bystander server"))
                    return;
                f.works(cl, srv, a, "bystander");
            });
    // however the bytes of handshake and data are cut, everything inside arrives
    for (Transport t : {Tls, Wss})
        for (RelayLink::Mode m : {RelayLink::Whole, RelayLink::Bytewise, RelayLink::Held})
            for (int role = 0; role < 2; ++role) {
                if (t == Wss && role == 0)
                    continue;
                l.add(QString("%1 through a relay, %2, as %3").arg(transportName(t), m == RelayLink::Whole ? "as it comes" : m == RelayLink::Bytewise ? "byte by byte" : "coalesced").arg(role ? "client" : "server"), [=](Ctx &x) {
                    ServerOptions o;
                    o.tls = true;
                    Fix f(x, o);
                    int a = -1;
                    RelayLink *r = new RelayLink(t == Tls ? World::kTcpPort : World::kWsPort, m);
                    Conn *c = f.adopt(t, r, false);
                    // the first request travels together with the end of the handshake
                    c->nextId = 2;
                    if (t == Wss)
                        f.settle(); // here: the end of the upgrade
                    Conn *srv, *cl;
                    if (role) {
                        srv = f.server(Unix, 1);
                        c->sendRaw(ref::request(1, "TunnelProxy.RegisterClient", regClient(uuidOf(11), uuidOf(1), "client 11")));
                    } else {
                        c->sendRaw(ref::request(1, "TunnelProxy.RegisterServer", regServer(uuidOf(1), "server 1")));
                    }
                    f.settle();
                    auto ev = c->take();
                    x.step();
                    if (ev.size() != 1 || ev[0].error != "TunnelProxyErrorNoError")
                        return x.fail("handshake:coalesced", QString("a request sent right behind the handshake was not served (%1 answers)").arg(ev.size()));
                    if (role) {
                        cl = c;
                        a = f.announced(srv, 11);
                    } else {
                        srv = c;
                        cl = f.client(Unix, 11, 1, srv, &a);
                    }
                    if (x.failed)
                        return;
                    for (int n : {1, 100, 20000})
                        if (!f.up(cl, srv, a, t == Wss ? QByteArray(n, 'u') : pattern(n, n), "up") || !f.down(cl, srv, a, t == Wss ? QByteArray(n, 'd') : pattern(n, n + 1), "down"))
                            return;
                });
            }
    // the encrypted side and the unix socket share one world; and without TLS the ports speak in the clear
    l.add("without TLS a ClientHello is no handshake", [=](Ctx &x) {
        Fix f(x);
        Conn *c = f.adopt(Tls, new TlsLink(World::kTcpPort));
        f.settle();
        f.w.advance(9500);
        x.step();
        if (c->peer->link->opened())
            x.fail("plain:encrypted", "TLS is off but the handshake completed");
        if (!c->closed())
            x.fail("plain:open", "still open");
    });
    l.add("twenty incomplete handshakes do not keep others out", [=](Ctx &x) {
        ServerOptions o;
        o.tls = true;
        Fix f(x, o);
        std::vector<Conn *> cs;
        for (int i = 0; i < 20; ++i) {
            cs.push_back(f.adopt(Tcp, new RawLink(sim::rawConnect(World::kTcpPort))));
            cs.back()->sendRaw(QByteArray("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11).left(i % 12));
            f.settle();
        }
        int a = -1;
        Conn *srv = f.server(Tls, 1);
        Conn *cl = f.client(Wss, 11, 1, srv, &a);
        if (x.failed || !f.works(cl, srv, a, "meanwhile"))
            return;
        f.w.advance(6500);
        x.step();
        for (Conn *c : cs)
            if (!c->closed())
                return x.fail("handshake:open", "an incomplete handshake is still open");
        f.works(cl, srv, a, "afterwards");
    });
}
static CheckReg rC14("C14", [] () -> Check * { MultiCheck *m = new MultiCheck; m->add("cases", new ListCheck("18 kinds of bytes in the clear at both encrypted ports in three segmentations, all 256 first bytes, a handshake cut off after every n-th byte (thorough: every byte) with silence or end, conversations relayed whole, byte by byte and coalesced", c14List)); return m; });

// ---- C15 ----------------------------------------------------------------------------------------
static std::vector<Op> anyOps(const MState &s, const std::vector<Transport> &t, bool data)
{
    std::vector<Op> ops;
    for (int i = 0; i < s.n; ++i) {
        const MSlot &x = s.s[i];
        bool ws = t[i] == Ws || t[i] == Wss;
        if (x.role == Gone) {
            ops.push_back({OpOpen, i, 0, 0});
            continue;
        }
        ops.push_back({OpClose, i, 0, 0});
        if (x.role == Fresh) {
            ops.push_back({OpPing, i, 0, 0});
            if (!ws)
                ops.push_back({OpRegServer, i, 1, 0});
            ops.push_back({OpRegClient, i, 10 + i, 1});
            ops.push_back({OpBad, i, 2, 0});
        } else if (x.role == Client) {
            if (data) {
                ops.push_back({OpData, i, 2, 0});
                if (!ws)
                    ops.push_back({OpData, i, 1, 0});
                ops.push_back({OpData, i, 5, 0});
            } else {
                ops.push_back({OpData, i, 0, 0});
            }
        } else {
            ops.push_back({OpHello, i, 0, 0});
            ops.push_back({OpBad, i, 3, 0});
            for (int k = 0; k < s.n; ++k) {
                if (s.s[k].addrServer != i)
                    continue;
                bool kws = t[k] == Ws || t[k] == Wss;
                ops.push_back({OpFrame, i, k, data ? (kws ? 2 : 1) : 0});
                ops.push_back({OpDisc, i, k, 0});
            }
        }
    }
    return ops;
}

static void c15List(ListCheck &l, bool thorough)
{
    // the same conversation over every pair of transports, payloads of all sizes around the framing limits
    std::vector<int> sizes = {1, 2, 124, 125, 126, 127, 128, 1000, 4095, 4096, 4097, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 200000};
    for (Transport st : kStream)
        for (Transport ct : kAll) {
            if (!compatible(st, ct))
                continue;
            for (int n : sizes)
                l.add(QString("%1 bytes both ways, server on %2, client on %3").arg(n).arg(transportName(st), transportName(ct)), [=](Ctx &x) {
                    Fix f(x, optsFor({st, ct}));
                    int a = -1;
                    Conn *srv = f.server(st, 1);
                    Conn *cl = f.client(ct, 11, 1, srv, &a);
                    if (x.failed)
                        return;
                    bool text = ct == Ws || ct == Wss;
                    QByteArray d = pattern(n, 5);
                    if (text)
                        for (int i = 0; i < n; ++i)
                            d[i] = (char)(32 + (d[i] & 63));
                    for (int rep = 0; rep < (thorough ? 4 : 2); ++rep)
                        if (!f.up(cl, srv, a, d, "up") || !f.down(cl, srv, a, d, "down"))
                            return;
                    // both directions at the same time
                    cl->sendRaw(d);
                    srv->sendFrame((quint16)a, d);
                    f.settle();
                    f.gotUp(srv, a, d, "up, both ways") && f.gotDown(cl, d, "down, both ways");
                });
        }
    // a client that reads slowly gets everything that was sent before its connection was ended
    const char *ends[] = {"disconnected by its server", "whose server leaves", "whose server is thrown out"};
    for (Transport ct : kAll)
        for (int end = 0; end < 3; ++end)
            for (int n : {1, 3000, 60000, 400000})
                for (int wait : {0, 3000})
                    l.add(QString("a slow client on %1, %2 with %3 bytes on their way, reads after %4 ms").arg(transportName(ct), ends[end]).arg(n).arg(wait), [=](Ctx &x) {
                        ServerOptions o = optsFor({ct});
                        o.smallBuffers = true;
                        Fix f(x, o);
                        Conn *srv = f.server(Unix, 1);
                        bool tls = ct == Tls || ct == Wss;
                        Conn *cl = tls ? f.adopt(ct, new RelayLink(ct == Tls ? World::kTcpPort : World::kWsPort, RelayLink::Whole)) : f.fresh(ct);
                        if (!cl->registerClient(uuidOf(11), uuidOf(1)))
                            return f.bad("registration");
                        int a = f.announced(srv, 11);
                        if (!f.works(cl, srv, a, "before"))
                            return;
                        cl->peer->link->stalled = true;
                        QByteArray d = pattern(n, 3);
                        for (int i = 0; i < n; ++i)
                            d[i] = (char)(32 + (d[i] & 63));
                        for (int i = 0; i < n; i += 50000)
                            srv->sendFrame((quint16)a, d.mid(i, 50000));
                        if (end == 0)
                            srv->request("TunnelProxy.DisconnectClient", discParams(a));
                        if (end == 2)
                            srv->sendFrame(0, "this is no request");
                        f.settle();
                        if (end == 1)
                            srv->close();
                        f.settle();
                        f.w.advance(wait);
                        cl->peer->link->stalled = false;
                        f.settle();
                        f.w.advance(wait);
                        x.step();
                        QByteArray got = Fix::data(cl->take());
                        x.outcome(QByteArray::number(got.size() == d.size()));
                        if (got != d)
                            return x.fail("slow:bytes", QString("%1 of %2 bytes arrived%3").arg(got.size()).arg(n).arg(d.startsWith(got) ? "" : ", altered"));
                        if (!cl->closed())
                            return x.fail("slow:open", "the connection is still open");
                    });
    // web socket framing of a client
    struct Frames {
        const char *name;
        std::function<void(Peer &)> send;
        QByteArray want; // payload at the server
        int closes;      // 1: the connection must end
    };
    std::vector<Frames> fr;
    fr.push_back({"a message in three fragments", [](Peer &p) { p.sendWs(1, "abc", false); p.sendWs(0, "def", false); p.sendWs(0, "ghi", true); }, "abcdefghi", 0});
    fr.push_back({"a message in a hundred fragments", [](Peer &p) { for (int i = 0; i < 100; ++i) p.sendWs(i ? 0 : 1, QByteArray(1, (char)('!' + i % 90)), i == 99); }, [] { QByteArray d; for (int i = 0; i < 100; ++i) d.append((char)('!' + i % 90)); return d; }(), 0});
    fr.push_back({"pings between fragments", [](Peer &p) { p.sendWs(9, "1"); p.sendWs(1, "abc", false); p.sendWs(9, "2"); p.sendWs(0, "def", true); p.sendWs(9, ""); }, "abcdef", 0});
    fr.push_back({"pongs nobody asked for", [](Peer &p) { p.sendWs(10, "x"); p.sendWs(1, "abc"); p.sendWs(10, ""); }, "abc", 0});
    fr.push_back({"an empty message", [](Peer &p) { p.sendWs(1, ""); p.sendWs(1, "abc"); p.sendWs(1, ""); }, "abc", 0});
    fr.push_back({"an empty fragment", [](Peer &p) { p.sendWs(1, "", false); p.sendWs(0, "abc", false); p.sendWs(0, "", true); }, "abc", 0});
    fr.push_back({"messages of 125, 126, 65535 and 65536 bytes", [](Peer &p) { for (int n : {125, 126, 65535, 65536}) p.sendWs(1, QByteArray(n, 'm')); }, QByteArray(125 + 126 + 65535 + 65536, 'm'), 0});
    fr.push_back({"multi-byte characters", [](Peer &p) { p.sendWs(1, QString::fromUtf8("gr\xc3\xbc\xc3\x9f \xe2\x82\xac \xf0\x9f\x98\x80").toUtf8()); }, QByteArray("gr\xc3\xbc\xc3\x9f \xe2\x82\xac \xf0\x9f\x98\x80"), 0});
    fr.push_back({"a multi-byte character cut by fragments", [](Peer &p) { p.sendWs(1, "\xe2\x82", false); p.sendWs(0, "\xac", true); }, "\xe2\x82\xac", 0});
    fr.push_back({"a close frame", [](Peer &p) { p.sendWs(8, QByteArray("\x03\xe8", 2)); }, "", 1});
    fr.push_back({"data, then a close frame", [](Peer &p) { p.sendWs(1, "bye"); p.sendWs(8, QByteArray("\x03\xe8", 2)); }, "bye", 1});
    fr.push_back({"a close frame without a code", [](Peer &p) { p.sendWs(8, ""); }, "", 1});
    fr.push_back({"a binary message", [](Peer &p) { p.sendWs(2, "abc"); }, "", 1});
    fr.push_back({"text, then a binary message", [](Peer &p) { p.sendWs(1, "abc"); p.sendWs(2, "abc"); }, "abc", 1});
    fr.push_back({"invalid UTF-8", [](Peer &p) { p.sendWs(1, "\xff\xfe"); }, "", 1});
    fr.push_back({"an undefined opcode", [](Peer &p) { p.sendWs(3, "abc"); }, "", 1});
    fr.push_back({"a continuation of nothing", [](Peer &p) { p.sendWs(0, "abc"); }, "", 1});
    fr.push_back({"a new message within a fragmented one", [](Peer &p) { p.sendWs(1, "abc", false); p.sendWs(1, "def", true); }, "", 1});
    fr.push_back({"a fragmented ping", [](Peer &p) { p.sendWs(9, "abc", false); }, "", 1});
    fr.push_back({"a ping that is too long", [](Peer &p) { p.sendWs(9, QByteArray(126, 'p')); }, "", 1});
    fr.push_back({"a reserved bit", [](Peer &p) { p.link->write(QByteArray("\xc1\x80\x11\x22\x33\x44", 6)); }, "", 1});
    for (Transport t : {Ws, Wss})
        for (const Frames &k : fr)
            for (int pace = 0; pace < 2; ++pace)
                l.add(QString("client on %1: %2%3").arg(transportName(t), k.name, pace ? ", after being idle" : ""), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    int a = -1, a2 = -1;
                    Conn *srv = f.server(Unix, 1);
                    Conn *cl2 = f.client(Unix, 12, 1, srv, &a2);
                    Conn *cl = f.client(t, 11, 1, srv, &a);
                    if (x.failed)
                        return;
                    if (pace)
                        f.w.advance(20000);
                    k.send(*cl->peer);
                    f.settle();
                    x.step();
                    auto ev = srv->take();
                    if (Fix::data(ev, a) != k.want)
                        return x.fail("ws:data", QString("the server received %1, expected %2").arg(QString(hex(Fix::data(ev, a))), QString(hex(k.want))));
                    if (Fix::data(ev, a2) != "")
                        return x.fail("ws:leak", "data under another client's address");
                    int gone = 0;
                    for (auto &e : ev)
                        gone += e.kind == Event::Notification && e.method == "TunnelProxy.ClientDisconnected" && e.params.value("socketAddress").toInt() == a;
                    if (gone != k.closes || cl->closed() != (k.closes == 1))
                        return x.fail("ws:close", QString("%1 disconnect notifications, connection %2").arg(gone).arg(cl->closed() ? "closed" : "open"));
                    if (!k.closes && !f.works(cl, srv, a, "afterwards"))
                        return;
                    if (!f.silent(cl2, "other client"))
                        return;
                    f.works(cl2, srv, a2, "other client");
                });
    // what the web socket transport does not carry
    l.add("a server on ws", [=](Ctx &x) {
        Fix f(x);
        Conn *srv = f.server(Ws, 1);
        Conn *cl = f.fresh(Tcp);
        bool ok = cl->registerClient(uuidOf(11), uuidOf(1));
        auto ev = srv->take();
        x.step();
        if (!ok || ev.size() != 1 || ev[0].kind != Event::Notification)
            x.fail("ws:server-role", "a server registered over a web socket does not receive decodable frames (SLIP bytes are not UTF-8 text)");
    });
}

static Check *makeC15()
{
    MultiCheck *m = new MultiCheck;
    bool th = g_thorough;
    for (Transport st : kStream)
        for (Transport ct : kAll)
            for (Transport ot : kAll) {
                if (!compatible(st, ct) || !compatible(st, ot) || !compatible(ct, ot) || ot < ct)
                    continue;
                bool tls = st == Tls || ct == Tls || ct == Wss || ot == Tls || ot == Wss;
                LockstepConfig c;
                c.transports = {st, ct, ot};
                c.server.tls = tls;
                std::vector<Transport> t = c.transports;
                int depth = th ? (tls ? 5 : 6) : (tls ? 3 : 4);
                ModelCheck *k = new ModelCheck("server, client and a third connection", c, [t](const MState &s) { return anyOps(s, t, true); }, depth);
                k->prefix = {{OpOpen, 0, 0, 0}, {OpRegServer, 0, 1, 0}, {OpOpen, 1, 0, 0}, {OpRegClient, 1, 11, 1}};
                m->add(QString("%1-%2-%3").arg(transportName(st), transportName(ct), transportName(ot)), k);
            }
    m->add("framing", new ListCheck("payload sizes around the limits of every framing on all transport pairs; 21 web socket frame patterns of a client", c15List));
    return m;
}
static CheckReg rC15("C15", makeC15);

// ---- C16 ----------------------------------------------------------------------------------------
static void c16List(ListCheck &l, bool thorough)
{
    // the throughput of a second is what was tunnelled in it
    for (Transport t : kAll)
        for (int n : {1, 1000, 100000})
            for (int dir = 0; dir < 3; ++dir)
                l.add(QString("throughput of %1 bytes %2 on %3").arg(n).arg(dir == 0 ? "up" : dir == 1 ? "down" : "both ways").arg(transportName(t)), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    int a = -1;
                    Conn *srv = f.server(Unix, 1);
                    Conn *cl = f.client(t, 11, 1, srv, &a);
                    if (x.failed)
                        return;
                    auto read = [&] { return f.w.monitor(true).value("tunnelProxyStatistic").toMap().value("troughput", -1).toLongLong(); };
                    f.w.advance(3000);
                    if (read() != 0)
                        return x.fail("throughput:idle", "throughput without traffic");
                    qint64 sum = 0, want = 0;
                    for (int k = 0; k < 5; ++k) {
                        if (dir != 1)
                            cl->sendRaw(QByteArray(n, 'u'));
                        if (dir != 0)
                            srv->sendFrame((quint16)a, QByteArray(n, 'd'));
                        want += dir == 2 ? 2 * n : n;
                        f.settle();
                        f.w.advance(1000);
                        sum += read();
                        x.step();
                    }
                    f.w.advance(1000);
                    sum += read();
                    if (sum != want)
                        return x.fail("throughput:sum", QString("%1 bytes were tunnelled, the seconds add up to %2").arg(want).arg(sum));
                    f.w.advance(2000);
                    if (read() != 0)
                        return x.fail("throughput:idle", "throughput without traffic");
                });
    // amounts of every size, at once
    auto counters = [](Ctx &x, Fix &f, Conn *srv, Conn *cl, const QString &when) {
        auto servers = f.w.monitor(true).value("tunnelProxyStatistic").toMap().value("tunnelConnections").toList();
        auto one = [&](const QVariantMap &e, Conn *c, const char *who) {
            if (e.value("rxDataCount", -1).toLongLong() != c->peer->sentBytes || e.value("txDataCount", -1).toLongLong() != c->peer->gotBytes)
                x.fail("counters", QString("%1: the report says %2 bytes from and %3 bytes to the %4, it was %5 and %6").arg(when).arg(e.value("rxDataCount").toLongLong()).arg(e.value("txDataCount").toLongLong()).arg(who).arg(c->peer->sentBytes).arg(c->peer->gotBytes));
        };
        if (servers.size() != 1 || servers[0].toMap().value("clientConnections").toList().size() != 1)
            return x.fail("counters", when + ": one server with one client is not what the report says");
        one(servers[0].toMap(), srv, "server");
        one(servers[0].toMap().value("clientConnections").toList()[0].toMap(), cl, "client");
        x.step();
    };
    for (Transport t : kAll)
        for (int n : {1, 127, 128, 255, 256, 10240, 10241, 32767, 32768, 65535, 65536, 65537, 100000, 300000, 1048577})
            l.add(QString("%1 bytes each way, counted, on %2").arg(n).arg(transportName(t)), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                int a = -1;
                Conn *srv = f.server(Unix, 1);
                Conn *cl = f.client(t, 11, 1, srv, &a);
                for (int round = 0; round < 3 && !x.failed; ++round) {
                    if (round != 1)
                        cl->sendRaw(QByteArray(n, 'u'));
                    f.settle();
                    if (round != 0)
                        srv->sendFrame((quint16)a, QByteArray(n, 'd'));
                    f.settle();
                    cl->take();
                    srv->take();
                    counters(x, f, srv, cl, QString("round %1").arg(round));
                }
            });
    // bytes of every value, one read each
    for (Transport t : kAll)
        l.add(QString("every byte value first in a read, both ways, counted, on %1").arg(transportName(t)), [=](Ctx &x) {
            Fix f(x, optsFor({t}));
            int a = -1;
            bool text = t == Ws || t == Wss;
            Conn *srv = f.server(text ? Unix : t, 1);
            Conn *cl = f.client(t, 11, 1, srv, &a);
            for (int b = 0; b < (text ? 128 : 256) && !x.failed; ++b) {
                for (int n : {1, 2}) {
                    cl->sendRaw(QByteArray(n, (char)b));
                    f.settle();
                    srv->sendFrame((quint16)a, QByteArray(n, (char)b));
                    f.settle();
                    if (!text && b != 0xDB) { // as the start of a frame to nobody
                        srv->sendRaw(QByteArray(1, (char)b));
                        f.settle();
                        srv->sendRaw(QByteArray("\x7f\x7fx\xC0", 4));
                        f.settle();
                    }
                }
                cl->take();
                srv->take();
                counters(x, f, srv, cl, QString("byte %1").arg(b));
            }
        });
    for (int down = 0; down < (thorough ? 2 : 1); ++down)
        l.add(down ? "more than 2 GB to a client, counted" : QString("more than %1 GB from a server, counted").arg(thorough ? 4 : 2), [=](Ctx &x) {
            Fix f(x);
            int a = -1;
            Conn *srv = f.server(Unix, 1);
            Conn *cl = f.client(Unix, 11, 1, srv, &a);
            QByteArray block = down ? QByteArray(1 << 20, 'd') : QByteArray(1 << 20, (char)0xC0);
            for (int i = 0; i < (down || !thorough ? 2100 : 4200) && !x.failed; ++i) {
                if (down)
                    srv->sendFrame((quint16)a, block);
                else
                    srv->sendRaw(block);
                f.settle();
                cl->take();
                if (i % 100 == 99 && (i < 200 || i > (down ? 2000 : 4000) || (i > 2000 && i < 2200)))
                    counters(x, f, srv, cl, QString("block %1").arg(i));
            }
        });
    // control traffic is not tunnel traffic
    l.add("throughput of control traffic", [=](Ctx &x) {
        Fix f(x);
        int a = -1;
        Conn *srv = f.server(Tcp, 1);
        f.client(Tcp, 11, 1, srv, &a);
        f.w.advance(2000);
        for (int k = 0; k < 5; ++k) {
            srv->request("TunnelProxy.Ping", {{"timestamp", k}});
            srv->sendFrame(999, "to nobody");
            f.settle();
            f.w.advance(1000);
            x.step();
            if (f.w.monitor(true).value("tunnelProxyStatistic").toMap().value("troughput", -1).toLongLong() != 0)
                return x.fail("throughput:control", "control messages count as tunnelled");
        }
    });
    // many connections
    for (int n : {30, thorough ? 400 : 120})
        l.add(QString("%1 clients at two servers").arg(n), [=](Ctx &x) {
            Fix f(x);
            Conn *s1 = f.server(Tcp, 1), *s2 = f.server(Unix, 2);
            std::vector<Conn *> cs;
            for (int i = 0; i < n; ++i) {
                Conn *c = f.fresh(i % 3 == 0 ? Tcp : i % 3 == 1 ? Unix : Ws);
                if (!c->registerClient(uuidOf(1000 + i), uuidOf(1 + i % 2), QString("client %1").arg(i)))
                    return f.bad("registration");
                cs.push_back(c);
            }
            for (int round = 0; round < 3; ++round) {
                bool ok = false;
                QVariantMap st = f.w.monitor(true, &ok).value("tunnelProxyStatistic").toMap();
                x.step();
                int left = (int)cs.size();
                if (!ok || st.value("clientConnectionsCount").toInt() != left || st.value("totalClientCount").toInt() != left + 2)
                    return x.fail("monitor:counts", QString("the monitor counts %1 of %2 clients").arg(st.value("clientConnectionsCount").toInt()).arg(left));
                QSet<QString> names;
                for (const QVariant &s : st.value("tunnelConnections").toList())
                    for (const QVariant &c : s.toMap().value("clientConnections").toList())
                        names.insert(c.toMap().value("name").toString());
                if (names.size() != left)
                    return x.fail("monitor:clients", QString("the monitor lists %1 of %2 clients").arg(names.size()).arg(left));
                for (int i = 0; i < n / 4; ++i) {
                    f.drop(cs.back());
                    cs.pop_back();
                }
                f.settle();
            }
            s1->take();
            s2->take();
        });
}

static Check *makeC16()
{
    MultiCheck *m = new MultiCheck;
    m->caseSeconds = 300; // gigabytes
    bool th = g_thorough;
    for (auto t : {std::vector<Transport>{Tcp, Unix, Tcp}, std::vector<Transport>{Unix, Tcp, Ws}, std::vector<Transport>{Tls, Wss, Unix}}) {
        LockstepConfig c;
        c.transports = t;
        c.server.tls = t[0] == Tls;
        c.checkMonitor = true;
        c.categories = CatMon | CatLivelock;
        ModelCheck *k = new ModelCheck("the report after every step", c, [t](const MState &s) { return anyOps(s, t, false); }, th ? (t[0] == Tls ? 5 : 7) : (t[0] == Tls ? 4 : 5));
        m->add("model", k);
        LockstepConfig c2 = c;
        std::vector<Transport> t2 = t;
        t2.push_back(t[1]);
        c2.transports = t2;
        k = new ModelCheck("two servers and two clients", c2, [t2](const MState &s) {
            std::vector<Op> ops;
            for (int i = 0; i < s.n; ++i) {
                const MSlot &x = s.s[i];
                if (x.role == Gone) {
                    ops.push_back({OpOpen, i, 0, 0});
                    continue;
                }
                ops.push_back({OpClose, i, 0, 0});
                if (x.role == Fresh) {
                    if (t2[i] != Ws && t2[i] != Wss)
                        ops.push_back({OpRegServer, i, 1 + i, 0});
                    for (int k = 0; k < s.n; ++k)
                        if (s.s[k].role == Server)
                            ops.push_back({OpRegClient, i, 10 + i, s.s[k].uuid});
                } else if (x.role == Client) {
                    ops.push_back({OpData, i, 0, 0});
                } else {
                    for (int k = 0; k < s.n; ++k)
                        if (s.s[k].addrServer == i) {
                            ops.push_back({OpFrame, i, k, 0});
                            ops.push_back({OpDisc, i, k, 0});
                        }
                }
            }
            return ops;
        }, th ? 6 : 4);
        k->prefix = {{OpOpen, 0, 0, 0}, {OpRegServer, 0, 1, 0}, {OpOpen, 1, 0, 0}, {OpRegClient, 1, 11, 1}};
        m->add("model", k);
        if (t[0] != Tls) {
            c2.server.ipv6 = true;
            ModelCheck *v6 = new ModelCheck("two servers and two clients over IPv6", c2, k->alphabet, th ? 5 : 2);
            v6->prefix = k->prefix;
            m->add("model", v6);
        }
    }
    m->add("cases", new ListCheck("throughput over five seconds for three sizes, three directions, five transports; up to 120 (thorough 400) clients", c16List));
    m->add("crowds", crowd(LookReport));
    return m;
}
static CheckReg rC16("C16", makeC16);

// ---- C17 ----------------------------------------------------------------------------------------
struct Mon {
    std::unique_ptr<RawLink> l;
    explicit Mon(World &w) : l(new RawLink(sim::rawUnixConnect(w.monitorPath().toLocal8Bit().constData()))) {}
    void settle(World &w)
    {
        for (int i = 0; i < 1000; ++i) {
            w.settle();
            if (!l->pump())
                return;
        }
    }
    // complete lines received; false if something is no JSON object with the expected content
    bool reports(int *n)
    {
        *n = 0;
        for (;;) {
            int p = l->rx.indexOf('\n');
            if (p < 0)
                return l->rx.isEmpty();
            QJsonParseError e;
            QVariantMap m = QJsonDocument::fromJson(l->rx.left(p), &e).toVariant().toMap();
            l->rx = l->rx.mid(p + 1);
            if (e.error != QJsonParseError::NoError || m.value("serverName").toString() != "mc proxy" || !m.contains("tunnelProxyStatistic"))
                return false;
            ++*n;
        }
    }
};
struct MonMsg {
    const char *name;
    QByteArray bytes;
    int kind; // 1 a refresh: one report; 0: no request, this monitor is closed
};
static std::vector<MonMsg> monMessages()
{
    std::vector<MonMsg> v;
    v.push_back({"refresh", "{\"method\":\"refresh\"}\n", 1});
    v.push_back({"refresh all", "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n", 1});
    v.push_back({"refresh without newline", "{\"method\":\"refresh\",\"params\":{\"printAll\":false}}", 1});
    v.push_back({"indented refresh", "{\n  \"method\": \"refresh\",\n  \"params\": {\n    \"printAll\": true\n  }\n}\n", 1});
    v.push_back({"other method", "{\"method\":\"shutdown\"}\n", 0});
    v.push_back({"no method", "{\"params\":{\"printAll\":true}}\n", 0});
    v.push_back({"not JSON", "refresh\n", 0});
    v.push_back({"binary", QByteArray("\x00\xC0\xDB\xFF", 4), 0});
    v.push_back({"a megabyte", QByteArray(1 << 20, '['), 0});
    v.push_back({"deeply nested", QByteArray(3000, '[') + QByteArray(3000, ']'), 0});
    v.push_back({"a registration", ref::request(1, "TunnelProxy.RegisterServer", regServer(uuidOf(77), "via monitor")), 0});
    return v;
}

static void c17List(ListCheck &l, bool thorough)
{
    std::vector<MonMsg> msgs = monMessages();
    int n = (int)msgs.size();
    int len = thorough ? 3 : 2;
    // two monitors: everything one says, in sequences, next to a well-behaved one and a tunnel
    std::vector<std::vector<int>> seqs{{}};
    for (int d = 0; d < len; ++d) {
        std::vector<std::vector<int>> next;
        for (auto &s : seqs)
            for (int k = 0; k < n; ++k) {
                auto q = s;
                q.push_back(k);
                next.push_back(q);
                QStringList names;
                for (int i : q)
                    names << msgs[i].name;
                l.add("a monitor sends: " + names.join(", "), [=](Ctx &x) {
                    Fix f(x);
                    int a = -1;
                    Conn *srv = f.server(Tcp, 1);
                    Conn *cl = f.client(Unix, 11, 1, srv, &a);
                    if (x.failed)
                        return;
                    Mon good(f.w), odd(f.w);
                    f.settle();
                    for (int i : q) {
                        bool was = odd.l->eof;
                        if (!was)
                            odd.l->write(msgs[i].bytes);
                        odd.settle(f.w);
                        x.step();
                        int got = 0;
                        if (!odd.reports(&got))
                            return x.fail("monitor:garbage", "a monitor received something that is not a report");
                        if (!was && got != msgs[i].kind)
                            return x.fail("monitor:answers", QString("%1 reports after %2").arg(got).arg(msgs[i].name));
                        if (!was && odd.l->eof != (msgs[i].kind == 0))
                            return x.fail("monitor:close", QString("after %1 the connection is %2").arg(msgs[i].name, odd.l->eof ? "closed" : "open"));
                        good.l->write("{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n");
                        good.settle(f.w);
                        if (!good.reports(&got) || got != 1 || good.l->eof)
                            return x.fail("monitor:other", QString("after %1 the other monitor is not served").arg(msgs[i].name));
                        if (!f.works(cl, srv, a, "tunnel"))
                            return;
                    }
                });
            }
        seqs = next;
    }
    // the same messages in every cut: never more than this connection is at stake
    for (int k = 0; k < n; ++k) {
        if (msgs[k].bytes.size() > 200)
            continue;
        for (int mode = 0; mode < 3; ++mode)
            l.add(QString("a monitor's %1 %2").arg(msgs[k].name, mode == 0 ? "cut everywhere" : mode == 1 ? "several times in one write" : "and the end of the connection"), [=](Ctx &x) {
                Fix f(x);
                int a = -1;
                Conn *srv = f.server(Tcp, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                if (x.failed)
                    return;
                const QByteArray &b = msgs[k].bytes;
                for (int cut = 1; cut < b.size(); ++cut) {
                    Mon m(f.w);
                    f.settle();
                    if (mode == 0) {
                        m.l->write(b.left(cut));
                        m.settle(f.w);
                        m.l->write(b.mid(cut));
                    } else if (mode == 1) {
                        m.l->write(b + b.left(cut) + b);
                    } else {
                        m.l->write(b.left(cut));
                        if (cut & 1)
                            m.l->shutdownWrite();
                        else
                            m.l->close();
                    }
                    m.settle(f.w);
                    x.step();
                    int got = 0;
                    if (mode != 2 && !m.reports(&got))
                        return x.fail("monitor:garbage", "a monitor received something that is not a report");
                    Mon good(f.w);
                    good.l->write("{\"method\":\"refresh\"}\n");
                    good.settle(f.w);
                    if (!good.reports(&got) || got != 1)
                        return x.fail("monitor:other", "the next monitor is not served");
                }
                f.works(cl, srv, a, "tunnel");
            });
    }
    // a request is answered in whatever reads it arrives (known: it has to arrive alone and in one)
    for (int k = 0; k < 2; ++k)
        for (int joined = 0; joined < 2; ++joined)
            l.add(QString("a monitor's %1 %2").arg(msgs[k].name, joined ? "twice in one read" : "in two reads"), [=](Ctx &x) {
                Fix f(x);
                const QByteArray &b = msgs[k].bytes;
                for (int cut = 1; cut < (joined ? 2 : b.size() - 1); ++cut) {
                    Mon m(f.w);
                    f.settle();
                    m.l->write(joined ? b + b : b.left(cut));
                    m.settle(f.w);
                    if (!joined) {
                        m.l->write(b.mid(cut));
                        m.settle(f.w);
                    }
                    x.step();
                    int got = 0;
                    if (!m.reports(&got) || got != 1 + joined)
                        return x.fail(joined ? "monitor:joined-requests" : "monitor:cut-request", QString("cut at %1: %2 reports").arg(cut).arg(got));
                }
            });
    // monitors come and go while tunnels do: all merges of two short scripts
    for (int order = 0; order < 20; ++order)
        l.add(QString("a monitor and a client come and go, merge %1").arg(order), [=](Ctx &x) {
            Fix f(x);
            Conn *srv = f.server(Tcp, 1);
            // choose which 3 of 6 steps are the monitor's
            int chosen = -1, count = 0;
            for (int mask = 0; mask < 64; ++mask)
                if (__builtin_popcount(mask) == 3 && count++ == order)
                    chosen = mask;
            std::unique_ptr<Mon> m;
            Conn *c = nullptr;
            int ms = 0, cs = 0, got = 0;
            for (int i = 0; i < 6; ++i) {
                x.step();
                if (chosen & (1 << i)) {
                    if (ms == 0)
                        m.reset(new Mon(f.w));
                    else if (ms == 1)
                        m->l->write("{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n");
                    else {
                        m->settle(f.w);
                        if (!m->reports(&got) || got != 1)
                            return x.fail("monitor:answers", QString("%1 reports for one refresh").arg(got));
                        m->l->close();
                    }
                    ms++;
                } else {
                    if (cs == 0)
                        c = f.fresh(Unix, false);
                    else if (cs == 1)
                        c->request("TunnelProxy.RegisterClient", regClient(uuidOf(11), uuidOf(1), "c"));
                    else
                        f.drop(c);
                    cs++;
                }
                g_disp->pass();
            }
            f.settle();
            auto ev = srv->take();
            if (Fix::count(ev, Event::Notification) != 2)
                return x.fail("monitor:tunnel", QString("%1 notifications for a client that came and went").arg(Fix::count(ev, Event::Notification)));
        });
    // a monitor that never reads
    for (int clients : {0, 40})
        l.add(QString("a monitor that never reads, %1 clients").arg(clients), [=](Ctx &x) {
            ServerOptions o;
            o.smallBuffers = true;
            Fix f(x, o);
            int a = -1;
            Conn *srv = f.server(Unix, 1);
            Conn *cl = f.client(Unix, 11, 1, srv, &a);
            for (int i = 0; i < clients; ++i)
                if (!f.fresh(Unix)->registerClient(uuidOf(100 + i), uuidOf(1)))
                    return f.bad("registration");
            srv->take();
            srv->pending.clear();
            Mon m(f.w);
            m.l->stalled = true;
            for (int i = 0; i < 100; ++i) {
                m.l->write("{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n");
                f.settle();
                x.step();
            }
            Mon good(f.w);
            good.l->write("{\"method\":\"refresh\"}\n");
            good.settle(f.w);
            int got = 0;
            if (!good.reports(&got) || got != 1)
                return x.fail("monitor:other", "another monitor is not served");
            if (!f.works(cl, srv, a, "tunnel"))
                return;
            m.l->stalled = false;
            m.settle(f.w);
            if (!m.reports(&got) || got != 100)
                return x.fail("monitor:backlog", QString("%1 of 100 reports arrived in the end").arg(got));
        });
    // refreshed every second for minutes, as the monitor program does
    l.add("a monitor refreshes every second for five minutes", [=](Ctx &x) {
        Fix f(x);
        int a = -1;
        Conn *srv = f.server(Tcp, 1);
        Conn *cl = f.client(Tcp, 11, 1, srv, &a);
        Mon m(f.w);
        for (int i = 0; i < 300; ++i) {
            m.l->write("{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n");
            m.settle(f.w);
            int got = 0;
            x.step();
            if (!m.reports(&got) || got != 1 || m.l->eof)
                return x.fail("monitor:answers", QString("refresh %1: %2 reports").arg(i).arg(got));
            f.w.advance(1000);
            if (i % 30 == 0)
                srv->request("TunnelProxy.Ping", {{"timestamp", i}});
        }
        srv->take();
        f.works(cl, srv, a, "tunnel");
    });
}
static CheckReg rC17("C17", [] () -> Check * { MultiCheck *m = new MultiCheck; m->add("cases", new ListCheck("all sequences up to 2 (thorough 3) of 11 messages on one monitor next to another one and a tunnel; every message cut everywhere, repeated, cut off; merges with a client coming and going; monitors that do not read", c17List)); return m; });

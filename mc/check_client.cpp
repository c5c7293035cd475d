// C19 remote connection, C20 socket server, C21 replies and notifications, C22 staying registered,
// C23 whatever is called whenever (the client library against a proxy played by the harness)
#include "client.h"

#include <cerrno>
#include <QSslSocket>
#include <set>

using namespace remoteproxyclient;
typedef TunnelProxyRemoteConnection Remote;
typedef TunnelProxySocketServer Sockets;

static const quint16 kPort = 3311;

static QByteArray sorted(const QVariantMap &m) { return QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact); }

// ---- the remote connection ----------------------------------------------------------------------
struct RemoteRig {
    Ctx &ctx;
    World w;
    FakeProxy proxy;
    std::unique_ptr<Remote> rc;
    QByteArray got;
    int ups = 0, downs = 0, errors = 0;
    bool announcedUp = false;
    int nextId = 0; // of the outstanding request

    RemoteRig(Ctx &c, bool ws) : ctx(c), w(c), proxy(w, kPort, ws)
    {
        rc.reset(new Remote(uuidOf(7), " the  client {\"}\t\n ", ws ? Remote::ConnectionTypeWebSocket : Remote::ConnectionTypeTcpSocket));
        QObject::connect(rc.get(), &Remote::remoteConnectedChanged, rc.get(), [this](bool on) {
            if (on == announcedUp)
                ctx.fail("remote:signal", QString("remoteConnectedChanged(%1) twice in a row").arg(on));
            if (on != rc->remoteConnected())
                ctx.fail("remote:signal", QString("remoteConnectedChanged(%1) while remoteConnected() is %2").arg(on).arg(rc->remoteConnected()));
            announcedUp = on;
            (on ? ups : downs)++;
        });
        QObject::connect(rc.get(), &Remote::dataReady, rc.get(), [this](const QByteArray &d) {
            if (!rc->remoteConnected())
                ctx.fail("remote:data-early", "dataReady while not connected to the remote server");
            got.append(d);
        });
        QObject::connect(rc.get(), &Remote::errorOccurred, rc.get(), [this](QAbstractSocket::SocketError) { errors++; });
    }
    ~RemoteRig()
    {
        rc.reset();
        w.settle();
    }
    void connectServer() { rc->connectServer(proxy.url(), uuidOf(3)); }
    // the one request that must have arrived
    bool expectRequest(const QString &method, const QString &where)
    {
        FakeEnd *e = proxy.last();
        bool odd = false;
        std::vector<QVariantMap> r = e ? e->requests(false, nullptr, &odd) : std::vector<QVariantMap>();
        ctx.step();
        if (r.size() != 1 || odd || r[0].value("method").toString() != method) {
            ctx.fail("remote:request", QString("%1: expected one %2, the proxy received %3 requests%4").arg(where, method).arg(r.size()).arg(r.empty() ? QString() : ", first " + QString(sorted(r[0]))));
            return false;
        }
        nextId = r[0].value("id").toInt();
        if (method == "TunnelProxy.RegisterClient") {
            QVariantMap p = r[0].value("params").toMap();
            if (QUuid(p.value("clientUuid").toString()) != uuidOf(7) || p.value("clientName").toString() != " the  client {\"}\t\n " || QUuid(p.value("serverUuid").toString()) != uuidOf(3)) {
                ctx.fail("remote:request", where + ": registers as " + QString(sorted(p)));
                return false;
            }
        }
        return true;
    }
    bool expect(bool up, const QByteArray &data, const QString &where)
    {
        ctx.step();
        ctx.observe((up ? "up " : "down ") + got.left(80));
        if (rc->remoteConnected() != up || announcedUp != up) {
            ctx.fail("remote:state", QString("%1: remoteConnected is %2 (announced %3), expected %4").arg(where).arg(rc->remoteConnected()).arg(announcedUp).arg(up));
            return false;
        }
        if (got != data) {
            ctx.fail("remote:data", QString("%1: dataReady gave %2 bytes %3, expected %4 bytes %5").arg(where).arg(got.size()).arg(QString(hex(got))).arg(data.size()).arg(QString(hex(data))));
            return false;
        }
        got.clear();
        return true;
    }
    void pieces(const QByteArray &wireBytes, const std::vector<int> &cuts)
    {
        int from = 0;
        for (size_t i = 0; i <= cuts.size(); ++i) {
            int to = i < cuts.size() ? cuts[i] : wireBytes.size();
            if (FakeEnd *e = proxy.last())
                e->put(wireBytes.mid(from, to - from));
            w.settle();
            from = to;
        }
    }
    bool sendWorks(const QByteArray &d, const QString &where)
    {
        bool r = rc->sendData(d);
        w.settle();
        QByteArray at = proxy.last() ? proxy.last()->rx : QByteArray();
        if (proxy.last())
            proxy.last()->rx.clear();
        ctx.step();
        if (!r || at != d) {
            ctx.fail("remote:send", QString("%1: sendData returned %2, the proxy received %3 of %4 bytes: %5").arg(where).arg(r).arg(at.size()).arg(d.size()).arg(QString(hex(at))));
            return false;
        }
        return true;
    }
};

struct Payload {
    const char *name;
    QByteArray data;
};
static std::vector<Payload> payloads()
{
    return {
        {"nothing", QByteArray()},
        {"text", "hello tunnel"},
        {"a line", "ping\n"},
        {"JSON", "{\"id\":1,\"status\":\"success\",\"params\":{\"x\":{}}}\n"},
        {"opening brace first", "{"},
        {"closing brace first", "}\n{}\n"},
        {"line break first", "\n\nx"},
        {"two JSON messages", "{\"a\":1}\n{\"b\":2}\n"},
    };
}

static void remoteCut(Ctx &ctx, bool ws, const QByteArray &payload, const std::vector<int> &helloCuts, const std::vector<int> &regCuts, bool split)
{
    RemoteRig r(ctx, ws);
    r.connectServer();
    r.w.settle();
    if (!r.expectRequest("RemoteProxy.Hello", "connected"))
        return;
    FakeEnd *e = r.proxy.last();
    r.pieces(e->encode(wire::hello(r.nextId)), helloCuts);
    if (!r.expectRequest("TunnelProxy.RegisterClient", "after the Hello response"))
        return;
    QByteArray reg = wire::registered(r.nextId, false);
    QByteArray all = ws || split ? e->encode(reg) + (payload.isEmpty() ? QByteArray() : e->encode(payload)) : reg + payload;
    r.pieces(all, regCuts);
    if (!r.expect(true, payload, "registered"))
        return;
    if (r.rc->remoteProxyServerName() != "fake" || r.rc->remoteProxyServerVersion() != "9.9" || r.rc->remoteProxyApiVersion() != "0.6" || r.rc->remoteProxyServer() != "nymea-remoteproxy")
        ctx.fail("remote:info", "the proxy's description was not taken over");
    if (!r.sendWorks("back {\"\n", "connected"))
        return;
    e->send("more}\n{");
    r.w.settle();
    if (!r.expect(true, "more}\n{", "later data"))
        return;
    e->close();
    r.w.settle();
    if (!r.expect(false, "", "the proxy closed"))
        return;
    if (r.rc->sendData("x"))
        ctx.fail("remote:send", "sendData reports success without a connection");
    // and once more
    r.connectServer();
    r.w.settle();
    if (!r.expectRequest("RemoteProxy.Hello", "connected again"))
        return;
    e = r.proxy.last();
    e->send(wire::hello(r.nextId));
    r.w.settle();
    if (!r.expectRequest("TunnelProxy.RegisterClient", "again after the Hello response"))
        return;
    e->send(wire::registered(r.nextId, false));
    r.w.settle();
    r.expect(true, "", "registered again");
}

static ListCheck *c19Cuts()
{
    return new ListCheck("the proxy's answers and the first tunnel data cut at every position and joined in every way, TCP and web socket, 8 payloads; two cuts around the end of the answer (thorough: any two cuts)",
        [](ListCheck &l, bool thorough) {
            for (int ws = 0; ws < 2; ++ws) {
                int hello = wire::hello(0).size() + (ws ? 2 : 0), reg = wire::registered(0, false).size() + (ws ? 2 : 0);
                QString t = ws ? "ws" : "tcp";
                for (int c = 1; c < hello; ++c)
                    l.add(QString("%1, Hello response cut at %2").arg(t).arg(c), [=](Ctx &x) { remoteCut(x, ws, "data", {c}, {}, false); });
                for (const Payload &p : payloads()) {
                    int n = reg + p.data.size() + (ws && !p.data.isEmpty() ? 2 : 0);
                    l.add(QString("%1, %2 with the response").arg(t, p.name), [=](Ctx &x) { remoteCut(x, ws, p.data, {}, {}, false); });
                    for (int c = 1; c < n; ++c)
                        l.add(QString("%1, %2 with the response, cut at %3").arg(t, p.name).arg(c), [=](Ctx &x) { remoteCut(x, ws, p.data, {}, {c}, false); });
                    for (int c = 1; c < n; ++c)
                        for (int d = c + 1; d < n; ++d)
                            if (thorough || (c > reg - 8 && d < reg + 8) || (c < 3 && d > reg - 3 && d < reg + 3))
                                l.add(QString("%1, %2 with the response, cut at %3 and %4").arg(t, p.name).arg(c).arg(d), [=](Ctx &x) { remoteCut(x, ws, p.data, {}, {c, d}, false); });
                    std::vector<int> every;
                    for (int c = 1; c < n; ++c)
                        every.push_back(c);
                    l.add(QString("%1, %2 byte by byte").arg(t, p.name), [=](Ctx &x) { remoteCut(x, ws, p.data, {}, every, false); });
                }
            }
        });
}

// what is sent arrives as sent, in both directions
static ListCheck *c19Bytes()
{
    return new ListCheck("payloads of every byte value and of sizes around the framing limits, both directions, TCP and web socket (text only)",
        [](ListCheck &l, bool thorough) {
            for (int ws = 0; ws < 2; ++ws) {
                auto add = [&](const QString &what, const QByteArray &d) {
                    l.add(QString(ws ? "ws, " : "tcp, ") + what, [=](Ctx &ctx) {
                        RemoteRig r(ctx, ws);
                        r.connectServer();
                        r.w.settle();
                        if (!r.expectRequest("RemoteProxy.Hello", "connected"))
                            return;
                        r.proxy.last()->send(wire::hello(r.nextId));
                        r.w.settle();
                        if (!r.expectRequest("TunnelProxy.RegisterClient", "after Hello"))
                            return;
                        r.proxy.last()->send(wire::registered(r.nextId, false));
                        r.w.settle();
                        if (!r.expect(true, "", "registered"))
                            return;
                        for (int i = 0; i < 2; ++i) {
                            if (!r.sendWorks(d, what))
                                return;
                            r.proxy.last()->send(d);
                            r.w.settle();
                            if (!r.expect(true, d, what))
                                return;
                        }
                    });
                };
                for (int b = 0; b < (ws ? 128 : 256); ++b)
                    add(QString("byte %1 inside").arg(b), QByteArray("a") + QByteArray(1, (char)b) + "b");
                if (ws)
                    for (const char *s : {"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80"})
                        add(QString("text %1").arg(QString(QByteArray(s).toHex())), s);
                for (int n : {1, 2, 125, 126, 127, 1023, 1024, 4095, 4096, 16383, 16384, 16385, 65535, 65536, 65537, 200000, 1 << 20, (1 << 20) + 1, 3 << 20, 16777217}) {
                    QByteArray d = pattern(n, n);
                    if (ws)
                        for (int i = 0; i < n; ++i)
                            d[i] = d[i] & 0x7f;
                    add(QString("%1 bytes").arg(n), d);
                }
                for (int kind = 0; kind < 3; ++kind)
                    l.add(QString("%1, %2").arg(ws ? "ws" : "tcp", kind == 0 ? "3000 sends and packets each way" : kind == 1 ? "100 connections of one object, ended by the proxy" : "100 connections of one object, ended by it"), [=](Ctx &ctx) {
                        RemoteRig r(ctx, ws);
                        for (int life = 0; life < (kind ? 100 : 1); ++life) {
                            r.connectServer();
                            r.w.settle();
                            if (!r.expectRequest("RemoteProxy.Hello", "connected"))
                                return;
                            r.proxy.last()->send(wire::hello(r.nextId));
                            r.w.settle();
                            if (!r.expectRequest("TunnelProxy.RegisterClient", "after Hello"))
                                return;
                            r.proxy.last()->send(wire::registered(r.nextId, false));
                            r.w.settle();
                            if (!r.expect(true, "", "registered"))
                                return;
                            for (int i = 0; i < (kind ? 2 : 3000); ++i) {
                                QByteArray d = "message " + QByteArray::number(i) + "\n";
                                if (!r.sendWorks(d, d))
                                    return;
                                r.proxy.last()->send(d);
                                r.w.settle();
                                if (!r.expect(true, d, d))
                                    return;
                            }
                            if (kind == 1)
                                r.proxy.last()->close();
                            else
                                r.rc->disconnectServer();
                            r.w.settle();
                            if (!r.expect(false, "", QString("end %1").arg(life)))
                                return;
                            if (r.ups != life + 1 || r.downs != life + 1 || r.proxy.open())
                                return ctx.fail("remote:signal", QString("connected %1, disconnected %2 times after %3 connections").arg(r.ups).arg(r.downs).arg(life + 1));
                        }
                    });
                Q_UNUSED(thorough)
            }
        });
}

// ---- dialogues of the remote connection: the model --------------------------------------------------
enum RemoteOp { RoConnect, RoDisconnect, RoSend, RoAnswer, RoError, RoRefuse, RoOther, RoGarbage, RoData, RoClose, RoUnlisten, RoListen, RoRunOut, RoCount };
struct RemoteModel {
    enum St { Down, Hello, Reg, Up } st = Down;
    bool listening = true;
    bool answered = false;
    static RemoteModel after(const std::vector<int> &p)
    {
        RemoteModel m;
        for (int o : p)
            m.apply(o);
        return m;
    }
    bool possible(int o) const
    {
        switch (o) {
        case RoConnect:
        case RoSend:
            return true;
        case RoDisconnect:
            return st != Down;
        case RoAnswer:
        case RoError:
            return st == Hello || st == Reg;
        case RoRefuse:
            return st == Reg;
        case RoOther:
        case RoGarbage:
            return st == Hello || st == Reg;
        case RoData:
            return st == Up;
        case RoClose:
            return st != Down;
        case RoUnlisten:
            return listening;
        case RoListen:
            return !listening;
        }
        return false;
    }
    void apply(int o)
    {
        switch (o) {
        case RoConnect:
            st = listening ? Hello : Down;
            break;
        case RoAnswer:
            st = st == Hello ? Reg : Up;
            break;
        case RoDisconnect:
        case RoError:
        case RoRefuse:
        case RoClose:
            st = Down;
            break;
        case RoUnlisten:
            listening = false;
            break;
        case RoListen:
            listening = true;
            break;
        }
    }
};

static void remoteDialogue(const std::vector<int> &ops, Ctx &ctx, bool ws)
{
    RemoteRig r(ctx, ws);
    RemoteModel m;
    int id = 0;
    for (size_t i = 0; i < ops.size() && !ctx.failed; ++i) {
        int o = ops[i];
        QString where = QString("step %1").arg(i + 1);
        RemoteModel before = m;
        m.apply(o);
        QByteArray data;
        int errors = r.errors;
        FakeEnd *e = r.proxy.last();
        switch (o) {
        case RoConnect:
            r.connectServer();
            break;
        case RoDisconnect:
            r.rc->disconnectServer();
            break;
        case RoSend: {
            bool ok = r.rc->sendData("from the client");
            if (ok != (before.st == RemoteModel::Up))
                ctx.fail("remote:send", where + ": sendData returned " + (ok ? "true" : "false"));
            break;
        }
        case RoAnswer:
            e->send(before.st == RemoteModel::Hello ? wire::hello(id) : wire::registered(id, false));
            break;
        case RoError:
            e->send(wire::error(id));
            break;
        case RoRefuse:
            e->send(wire::refused(id));
            break;
        case RoOther:
            e->send(wire::hello(id + 1000));
            break;
        case RoGarbage:
            e->send("no json}\n");
            break;
        case RoData:
            data = "{to the client}\n";
            e->send(data);
            break;
        case RoClose:
            e->close();
            break;
        case RoUnlisten:
            r.proxy.unlisten();
            break;
        case RoListen:
            r.proxy.listen();
            break;
        }
        r.w.settle();
        if (!r.expect(m.st == RemoteModel::Up, data, where))
            return;
        Remote::State want = m.st == RemoteModel::Down ? Remote::StateDisconnected : m.st == RemoteModel::Hello ? Remote::StateInitializing : m.st == RemoteModel::Reg ? Remote::StateRegister : Remote::StateRemoteConnected;
        bool connecting = m.st == RemoteModel::Hello && r.rc->state() == Remote::StateConnected;
        if (r.rc->state() != want && !connecting)
            ctx.fail("remote:state", QString("%1: state() is %2, expected %3").arg(where).arg(r.rc->state()).arg(want));
        if (r.proxy.open() != (m.st == RemoteModel::Down ? 0 : 1))
            ctx.fail("remote:connections", QString("%1: the proxy has %2 connections").arg(where).arg(r.proxy.open()));
        if (o == RoConnect && !m.listening && r.errors != errors + 1)
            ctx.fail("remote:error", QString("%1: a refused connection was reported %2 times").arg(where).arg(r.errors - errors));
        if (ctx.failed)
            return;
        if (o == RoConnect && m.st == RemoteModel::Hello) {
            if (!r.expectRequest("RemoteProxy.Hello", where))
                return;
            id = r.nextId;
        } else if (m.st == RemoteModel::Reg && before.st == RemoteModel::Hello) {
            if (!r.expectRequest("TunnelProxy.RegisterClient", where))
                return;
            id = r.nextId;
        } else if (FakeEnd *f = r.proxy.last()) {
            QByteArray want = o == RoSend && before.st == RemoteModel::Up ? "from the client" : "";
            if (f->rx != want)
                ctx.fail("remote:sent", where + ": the proxy received " + QString(hex(f->rx)));
            f->rx.clear();
        }
        ctx.state(QByteArray::number(m.st) + (m.listening ? "l" : "-") + QByteArray::number(r.ups) + "/" + QByteArray::number(r.downs));
    }
    ctx.outcome(QByteArray::number(m.st) + QByteArray::number(r.ups) + QByteArray::number(r.downs) + QByteArray::number(r.errors));
}

static SequenceCheck *c19Dialogue(bool ws)
{
    SequenceCheck *s = new SequenceCheck;
    s->name = ws ? "ws" : "tcp";
    s->ops = QStringList{"connectServer", "disconnectServer", "sendData", "answered", "answered with an error", "registration refused", "another id's answer", "garbage", "tunnel data", "proxy closes", "proxy unreachable", "proxy reachable again"};
    s->depth = ws ? 5 : 6;
    s->depthThorough = ws ? 6 : 8;
    s->boundsText = QString(ws ? "web socket: " : "TCP: ") + "all sequences of %1 operations of {%2} that the model allows";
    s->possible = [](const std::vector<int> &p, int o) { return (!p.empty() || o == RoConnect || o == RoUnlisten) && RemoteModel::after(p).possible(o); };
    s->execute = [ws](const std::vector<int> &p, Ctx &c) { remoteDialogue(p, c, ws); };
    return s;
}

// what the proxy may answer to Hello and to a registration; only the first of them accepts
struct Answer {
    QString name;
    QVariantMap message; // without the id
    bool good;
};
static std::vector<Answer> answers(bool hello, bool server)
{
    QVariantMap good;
    if (hello)
        good = QVariantMap{{"server", "nymea-remoteproxy"}, {"name", "fake"}, {"version", "9.9"}, {"apiVersion", "0.6"}};
    else
        good = QVariantMap{{"tunnelProxyError", "TunnelProxyErrorNoError"}};
    if (!hello && server)
        good["slipEnabled"] = true;
    std::vector<Answer> l;
    auto add = [&](const QString &name, const QVariant &status, const QVariantMap &params, bool ok) {
        QVariantMap m;
        if (status.isValid())
            m["status"] = status;
        if (!params.isEmpty())
            m["params"] = params;
        l.push_back({name, m, ok});
    };
    add("accepted", "success", good, true);
    QVariantMap more = good;
    more["future"] = QVariantMap{{"x", QVariantList{1, 2}}};
    add("accepted with more than is known", "success", more, true);
    add("error", "error", QVariantMap(), false);
    add("error with the parameters of success", "error", good, false);
    add("no status", QVariant(), good, false);
    add("another status", "successful", good, false);
    add("status is a number", 1, good, false);
    if (!hello) {
        for (const char *e : {"InvalidUuid", "InternalServerError", "ServerNotFound", "ForbiddenCall", "AlreadyRegistered", "NotRegistered", "UnknownSocketAddress", "OfTheFuture", "", "NoErrors"}) {
            QVariantMap p = good;
            p["tunnelProxyError"] = QString("TunnelProxyError") + e;
            add(QString("refused: TunnelProxyError") + e, "success", p, false);
        }
        QVariantMap p = good;
        p["tunnelProxyError"] = 0;
        add("refused: a number", "success", p, false);
        p.remove("tunnelProxyError");
        p["slipEnabled"] = true;
        add("refused: nothing", "success", p, false);
    }
    return l;
}
static QByteArray answerWire(const Answer &a, int id)
{
    QVariantMap m = a.message;
    m["id"] = id;
    return ref::json(m);
}

static ListCheck *c19Answers()
{
    return new ListCheck("every answer to Hello and to the registration - accepted, errors of every kind, each reason of a refusal, unknown and missing ones - and a second attempt that is accepted",
        [](ListCheck &l, bool) {
            for (int ws = 0; ws < 2; ++ws)
                for (int stage = 0; stage < 2; ++stage)
                    for (const Answer &a : answers(stage == 0, false))
                        l.add(QString("%1, %2: %3").arg(ws ? "ws" : "tcp", stage ? "RegisterClient" : "Hello", a.name), [=](Ctx &ctx) {
                            RemoteRig r(ctx, ws);
                            for (int round = 0; round < 2 && !ctx.failed; ++round) {
                                QString where = round ? "second attempt" : "first attempt";
                                bool last = round == 1;
                                r.connectServer();
                                r.w.settle();
                                if (!r.expectRequest("RemoteProxy.Hello", where))
                                    return;
                                FakeEnd *e = r.proxy.last();
                                bool good = true;
                                if (stage == 0 && !last) {
                                    e->send(answerWire(a, r.nextId));
                                    good = a.good;
                                } else {
                                    e->send(wire::hello(r.nextId));
                                }
                                r.w.settle();
                                if (good) {
                                    if (!r.expectRequest("TunnelProxy.RegisterClient", where))
                                        return;
                                    if (stage == 1 && !last) {
                                        e->send(answerWire(a, r.nextId));
                                        good = a.good;
                                    } else {
                                        e->send(wire::registered(r.nextId, false));
                                    }
                                    r.w.settle();
                                }
                                if (!r.expect(good, "", where))
                                    return;
                                if (good) {
                                    if (!r.sendWorks("x", where))
                                        return;
                                    e->close();
                                    r.w.settle();
                                    r.expect(false, "", where + ", closed");
                                } else if (r.rc->sendData("x")) {
                                    ctx.fail("remote:send", where + ": sendData works although refused");
                                }
                                if (r.proxy.open())
                                    ctx.fail("remote:connections", where + ": the connection is left open");
                            }
                        });
        });
}

static CheckReg r19("C19", [] {
    MultiCheck *m = new MultiCheck;
    m->add("cuts", c19Cuts());
    m->add("answers", c19Answers());
    m->add("bytes", c19Bytes());
    m->add("dialogue tcp", c19Dialogue(false));
    m->add("dialogue ws", c19Dialogue(true));
    return m;
});

// ---- C20: the socket server -------------------------------------------------------------------------
static const int kAddr[] = {1, 0xC0DB};
static const QByteArray kData[] = {QByteArray("to the {server}\n", 16), QByteArray("\xC0\xDB\xDC\x00\xDD\n}", 7)};

struct SocketsRig {
    struct Rec {
        QPointer<TunnelProxySocket> s;
        int addr, who;
        QByteArray got;
        int ends = 0, disconnected = 0;
    };
    Ctx &ctx;
    World w;
    FakeProxy proxy;
    std::unique_ptr<Sockets> srv;
    std::vector<std::unique_ptr<Rec>> recs;
    QByteArray log; // what the library reported, in order
    bool announced = false;
    size_t served = 0;                    // connections of the library seen so far
    std::vector<QVariantMap> outstanding; // requests without an answer
    std::vector<ref::Frame> frames;       // tunnel data the proxy received
    bool odd = false;
    int pings = 0;
    bool autoRegister = true;
    QByteArray withResponse; // sent together with the response of the registration
    std::set<int> slip;      // connections which are registered
    int registrations = 0;
    bool keepPings = false;
    bool custom = false; // the announcements are not wire::joined()'s

    SocketsRig(Ctx &c, bool ws) : ctx(c), w(c), proxy(w, kPort, ws)
    {
        srv.reset(new Sockets(uuidOf(3), " the  server {\"}\t\n ", ws ? Sockets::ConnectionTypeWebSocket : Sockets::ConnectionTypeTcpSocket));
        QObject::connect(srv.get(), &Sockets::runningChanged, srv.get(), [this](bool on) {
            if (on == announced)
                ctx.fail("sockets:signal", QString("runningChanged(%1) twice in a row").arg(on));
            if (on != srv->running())
                ctx.fail("sockets:signal", QString("runningChanged(%1) while running() is %2").arg(on).arg(srv->running()));
            announced = on;
        });
        QObject::connect(srv.get(), &Sockets::clientConnected, srv.get(), [this](TunnelProxySocket *s) {
            Rec *r = new Rec;
            recs.emplace_back(r);
            r->s = s;
            r->addr = s->socketAddress();
            r->who = s->clientUuid().data4[7];
            if (!custom && (s->clientUuid() != uuidOf(r->who) || s->clientName() != QString("client {%1}").arg(r->who) || s->clientPeerAddress() != QHostAddress(wire::peerOf(r->who)) || !s->connected()))
                ctx.fail("sockets:client", "the new socket does not describe the client that was announced: " + s->clientName() + " " + s->clientUuid().toString() + " " + s->clientPeerAddress().toString());
            log += "+" + QByteArray::number(r->addr) + "/" + QByteArray::number(r->who) + " ";
            QObject::connect(s, &TunnelProxySocket::dataReceived, srv.get(), [this, r](const QByteArray &d) {
                if (r->ends)
                    ctx.fail("sockets:data-late", "data for a client that is gone");
                r->got += d;
                log += QByteArray::number(r->addr) + ":" + d.toHex() + " ";
            });
            QObject::connect(s, &TunnelProxySocket::disconnected, srv.get(), [this, r] {
                r->disconnected++;
                if (r->s && r->s->connected())
                    ctx.fail("sockets:client", "disconnected() while connected()");
            });
        });
        QObject::connect(srv.get(), &Sockets::clientDisconnected, srv.get(), [this](TunnelProxySocket *s) {
            int n = 0;
            for (auto &r : recs)
                if (r->s == s) {
                    n++;
                    r->ends++;
                    log += "-" + QByteArray::number(r->addr) + "/" + QByteArray::number(r->who) + " ";
                    if (r->ends > 1)
                        ctx.fail("sockets:gone", "clientDisconnected twice for a client");
                }
            if (n != 1)
                ctx.fail("sockets:gone", "clientDisconnected for a socket nobody knows");
        });
    }
    ~SocketsRig()
    {
        srv.reset();
        w.settle();
    }
    // plays the proxy until everything is at rest
    void settle()
    {
        for (int i = 0; i < 50; ++i) {
            w.settle();
            if (!serve())
                return;
        }
        ctx.fail("sockets:requests", "the library keeps sending requests");
    }
    bool serve()
    {
        bool any = false;
        for (size_t i = 0; i < proxy.ends.size(); ++i) {
            FakeEnd *e = proxy.ends[i].get();
            if (i >= served) {
                served = i + 1;
                outstanding.clear();
                any = true;
            }
            for (const QVariantMap &r : e->requests(slip.count((int)i), &frames, &odd)) {
                any = true;
                QString m = r.value("method").toString();
                int id = r.value("id").toInt();
                if (m == "TunnelProxy.Ping" && !keepPings) {
                    pings++;
                    QVariantMap p = r.value("params").toMap();
                    e->send(ref::frame(0, wire::ok(id, p)));
                } else if (m == "RemoteProxy.Hello" && autoRegister && !slip.count((int)i)) {
                    e->send(wire::hello(id));
                } else if (m == "TunnelProxy.RegisterServer" && autoRegister && !slip.count((int)i)) {
                    QVariantMap p = r.value("params").toMap();
                    if (QUuid(p.value("serverUuid").toString()) != uuidOf(3) || p.value("serverName").toString() != " the  server {\"}\t\n ")
                        ctx.fail("sockets:register", "registers as " + QString(sorted(p)));
                    slip.insert((int)i);
                    registrations++;
                    QByteArray resp = wire::registered(id, true);
                    if (e->ws && !withResponse.isEmpty())
                        e->put(e->encode(resp) + e->encode(withResponse));
                    else
                        e->send(resp + withResponse);
                } else {
                    outstanding.push_back(r);
                }
            }
        }
        return any;
    }
    bool start()
    {
        srv->startServer(proxy.url());
        settle();
        if (!srv->running()) {
            ctx.fail("sockets:running", "not running although the proxy accepted the registration");
            return false;
        }
        return true;
    }
    void frame(int addr, const QByteArray &d) { proxy.last()->send(ref::frame((quint16)addr, d)); }
    Rec *live(int addr)
    {
        for (auto &r : recs)
            if (r->addr == addr && !r->ends)
                return r.get();
        return nullptr;
    }
};

// the same events however the stream is cut
static void socketsCut(Ctx &ctx, bool ws, const std::vector<int> &cuts, int step, bool coalesced)
{
    SocketsRig r(ctx, ws);
    std::vector<QByteArray> parts = {
        ref::frame(0, wire::joined(0, kAddr[0], 11)), ref::frame(kAddr[0], kData[0]), ref::frame(0, wire::joined(1, kAddr[1], 12)),
        ref::frame(kAddr[1], kData[1]), ref::frame(kAddr[0], kData[1]), ref::frame(0, wire::left(2, kAddr[0])),
        ref::frame(kAddr[1], kData[0]), ref::frame(0, wire::joined(3, kAddr[0], 13)), ref::frame(kAddr[0], "x")};
    QByteArray want = "+1/11 1:" + kData[0].toHex() + " +49371/12 49371:" + kData[1].toHex() + " 1:" + kData[1].toHex() + " -1/11 49371:" + kData[0].toHex() + " +1/13 1:78 ";
    QByteArray all;
    r.srv->startServer(r.proxy.url());
    r.autoRegister = false;
    r.settle();
    if (r.outstanding.size() != 1 || r.outstanding[0].value("method").toString() != "RemoteProxy.Hello") {
        ctx.fail("sockets:register", "no Hello");
        return;
    }
    r.proxy.last()->send(wire::hello(r.outstanding[0].value("id").toInt()));
    r.outstanding.clear();
    r.settle();
    if (r.outstanding.size() != 1 || r.outstanding[0].value("method").toString() != "TunnelProxy.RegisterServer") {
        ctx.fail("sockets:register", "no RegisterServer");
        return;
    }
    FakeEnd *e = r.proxy.last();
    QByteArray resp = wire::registered(r.outstanding[0].value("id").toInt(), true);
    r.outstanding.clear();
    r.slip.insert(0);
    if (ws) {
        all = e->encode(resp);
        for (const QByteArray &p : parts)
            all += e->encode(QString::fromLatin1(p).toUtf8() == p ? p : p); // one message per frame
    } else {
        all = resp;
        for (const QByteArray &p : parts)
            all += p;
    }
    if (!coalesced) {
        e->put(ws ? e->encode(resp) : resp);
        r.settle();
        all = all.mid(ws ? e->encode(resp).size() : resp.size());
    }
    int from = 0;
    std::vector<int> c = cuts;
    if (step)
        for (int i = step; i < all.size(); i += step)
            c.push_back(i);
    for (size_t i = 0; i <= c.size(); ++i) {
        int to = i < c.size() ? c[i] : all.size();
        e->put(all.mid(from, to - from));
        r.w.settle();
        from = to;
    }
    r.settle();
    ctx.step();
    ctx.observe(r.log);
    ctx.outcome(r.log);
    if (!r.srv->running())
        ctx.fail("sockets:running", "not running");
    else if (r.log != want)
        ctx.fail("sockets:events", "reported " + QString(r.log).left(300) + ", expected " + QString(want).left(300));
}

static ListCheck *c20Cuts()
{
    return new ListCheck("registration, arrivals, departures and data of three clients, cut at every position, into pieces of every size up to 64, with and without the response in the same packet (thorough: any two cuts); TCP",
        [](ListCheck &l, bool thorough) {
            int n = wire::registered(1, true).size();
            int total = n;
            for (const QByteArray &p : {ref::frame(0, wire::joined(0, kAddr[0], 11)), ref::frame(kAddr[0], kData[0]), ref::frame(0, wire::joined(1, kAddr[1], 12)), ref::frame(kAddr[1], kData[1]), ref::frame(kAddr[0], kData[1]), ref::frame(0, wire::left(2, kAddr[0])),
                                        ref::frame(kAddr[1], kData[0]), ref::frame(0, wire::joined(3, kAddr[0], 13)), ref::frame(kAddr[0], "x")})
                total += p.size();
            for (int co = 0; co < 2; ++co) {
                QString t = co ? "with the response" : "behind the response";
                l.add(t + ", in one piece", [=](Ctx &x) { socketsCut(x, false, {}, 0, co); });
                for (int s = 1; s <= 64; ++s)
                    l.add(t + QString(", pieces of %1").arg(s), [=](Ctx &x) { socketsCut(x, false, {}, s, co); });
                int size = co ? total : total - n;
                for (int c = 1; c < size; ++c)
                    l.add(t + QString(", cut at %1").arg(c), [=](Ctx &x) { socketsCut(x, false, {c}, 0, co); });
                for (int c = 1; c < size; c += thorough ? 1 : 9)
                    for (int d = c + 1; d < size; d += thorough ? 1 : 7)
                        l.add(t + QString(", cut at %1 and %2").arg(c).arg(d), [=](Ctx &x) { socketsCut(x, false, {c, d}, 0, co); });
            }
        });
}

static ListCheck *c20Sizes()
{
    return new ListCheck("one to 1000 clients at once, each with data, written to, half of them leaving; data of 1 B to 8 MB for and from one of two clients; TCP",
        [](ListCheck &l, bool thorough) {
            std::vector<int> counts = {1, 2, 3, 16, 17, 64, 100, 255, 256, 257, 300, 1000};
            if (thorough)
                counts.push_back(5000);
            for (int n : counts)
                for (bool bulk : {false, true})
                    l.add(QString("%1 clients, %2").arg(n).arg(bulk ? "all in one packet" : "one by one"), [=](Ctx &ctx) {
                        SocketsRig r(ctx, false);
                        if (!r.start())
                            return;
                        QByteArray want, all;
                        auto addr = [](int i) { return 1 + i * 13; };
                        auto put = [&](const QByteArray &f) {
                            if (bulk) {
                                all += f;
                            } else {
                                r.proxy.last()->put(f);
                                r.settle();
                            }
                        };
                        for (int i = 0; i < n; ++i) {
                            put(ref::frame(0, wire::joined(i, addr(i), 1 + i % 200)));
                            want += "+" + QByteArray::number(addr(i)) + "/" + QByteArray::number(1 + i % 200) + " ";
                        }
                        for (int i = n - 1; i >= 0; --i) {
                            QByteArray d = "data " + QByteArray::number(i);
                            put(ref::frame(addr(i), d));
                            want += QByteArray::number(addr(i)) + ":" + d.toHex() + " ";
                        }
                        for (int i = 0; i < n; i += 2) {
                            put(ref::frame(0, wire::left(n + i, addr(i))));
                            want += "-" + QByteArray::number(addr(i)) + "/" + QByteArray::number(1 + i % 200) + " ";
                        }
                        if (bulk)
                            r.proxy.last()->put(all);
                        r.settle();
                        ctx.step();
                        ctx.observe(r.log.right(200));
                        if (r.log != want)
                            ctx.fail("sockets:events", "reported " + QString(r.log.right(200)) + ", expected " + QString(want.right(200)));
                        r.frames.clear();
                        for (int i = 1; i < n; i += 2)
                            if (SocketsRig::Rec *rec = r.live(addr(i)))
                                rec->s->writeData("answer " + QByteArray::number(i));
                        r.settle();
                        ctx.step();
                        bool good = (int)r.frames.size() == n / 2;
                        for (size_t i = 0; good && i < r.frames.size(); ++i)
                            good = r.frames[i].addr == addr(1 + 2 * i) && r.frames[i].data == "answer " + QByteArray::number(1 + 2 * (int)i);
                        if (!good)
                            ctx.fail("sockets:sent", QString("%1 frames of %2 reached the proxy as written").arg(r.frames.size()).arg(n / 2));
                        if (r.srv->findChildren<TunnelProxySocket *>().size() != n / 2)
                            ctx.fail("sockets:kept", QString("%1 socket objects, %2 clients").arg(r.srv->findChildren<TunnelProxySocket *>().size()).arg(n / 2));
                        r.log.clear();
                        r.srv->stopServer();
                        r.settle();
                        if (r.log.count('-') != n / 2)
                            ctx.fail("sockets:gone", QString("%1 ends reported, %2 clients").arg(r.log.count('-')).arg(n / 2));
                        ctx.state(QByteArray::number(n));
                    });
            l.add("names of clients", [=](Ctx &ctx) {
                SocketsRig r(ctx, false);
                if (!r.start())
                    return;
                r.custom = true;
                QStringList names{"", " ", "  a  b ", "\t", "\n", "null", "{}", "\"", "\\", QString(300, 'x'), QString(9000, 'y'), QString::fromUtf8("\xc3\xa9\xf0\x9f\x98\x80")};
                for (int i = 0; i < names.size() && !ctx.failed; ++i) {
                    QVariantMap p{{"clientName", names[i]}, {"clientUuid", uuidOf(30 + i).toString()}, {"clientPeerAddress", i % 2 ? "::1" : ""}, {"socketAddress", 1 + i * 5900}};
                    r.frame(0, wire::note(i, "TunnelProxy.ClientConnected", p));
                    r.settle();
                    ctx.step();
                    if ((int)r.recs.size() != i + 1)
                        return ctx.fail("sockets:client", QString("the client named \"%1\" is not announced once").arg(names[i].left(50)));
                    TunnelProxySocket *s = r.recs.back()->s;
                    if (s->clientName() != names[i] || s->clientUuid() != uuidOf(30 + i) || s->socketAddress() != 1 + i * 5900 || s->clientPeerAddress() != QHostAddress(i % 2 ? "::1" : "") || !s->connected())
                        return ctx.fail("sockets:client", QString("the client named \"%1\" is announced as \"%2\"").arg(names[i].left(50), s->clientName().left(50)));
                    r.frame(1 + i * 5900, "data");
                    r.settle();
                    if (!r.log.endsWith(QByteArray::number(1 + i * 5900) + ":" + QByteArray("data").toHex() + " "))
                        return ctx.fail("sockets:events", QString("data for the client named \"%1\" is not reported").arg(names[i].left(50)));
                }
            });
            std::vector<int> sizes = {1, 4095, 4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 19, 3 << 20, 8 << 20};
            for (int size : sizes)
                for (int special = 0; special < 2; ++special)
                    l.add(QString("%1 bytes%2").arg(size).arg(special ? ", all to be escaped" : ""), [=](Ctx &ctx) {
                        SocketsRig r(ctx, false);
                        if (!r.start())
                            return;
                        QByteArray data(size, special ? '\xDB' : 'a');
                        for (int i = 0; i < size; i += 251)
                            data[i] = (char)(i / 251);
                        r.proxy.last()->put(ref::frame(0, wire::joined(0, kAddr[0], 11)) + ref::frame(0, wire::joined(1, kAddr[1], 12)));
                        r.settle();
                        r.log.clear();
                        r.proxy.last()->put(ref::frame(kAddr[0], data) + ref::frame(kAddr[1], "z"));
                        r.settle();
                        ctx.step();
                        ctx.observe(QByteArray::number(r.log.size()));
                        if (r.log != QByteArray::number(kAddr[0]) + ":" + data.toHex() + " " + QByteArray::number(kAddr[1]) + ":7a ")
                            ctx.fail("sockets:events", QString("%1 bytes reported for two frames of %2 and 1 bytes").arg(r.log.size() / 2).arg(size));
                        r.frames.clear();
                        for (int k = 0; k < 2; ++k)
                            if (SocketsRig::Rec *rec = r.live(kAddr[k]))
                                rec->s->writeData(k ? QByteArray("y") : data);
                        r.settle();
                        ctx.step();
                        if (r.frames.size() != 2 || r.frames[0].addr != kAddr[0] || r.frames[0].data != data || r.frames[1].addr != kAddr[1] || r.frames[1].data != "y")
                            ctx.fail("sockets:sent", QString("%1 frames reached the proxy, not as written").arg(r.frames.size()));
                        ctx.state(QByteArray::number(size));
                    });
        });
}

enum SocketsOp { SoJoinA, SoJoinB, SoLeftA, SoLeftB, SoDataA, SoDataB, SoUnknown, SoBroken, SoShort, SoEmpty, SoOther, SoWriteA, SoWriteB, SoKickA, SoKickB, SoAnswer, SoClose, SoStop, SoStart, SoWait, SoCount };
struct SocketsModel {
    bool running = true, enabled = true;
    int who[2] = {0, 0};
    int next = 11;
    int outstanding = 0;
    void lose()
    {
        running = false;
        who[0] = who[1] = 0;
        outstanding = 0;
    }
    bool possible(int o) const
    {
        switch (o) {
        case SoJoinA:
        case SoJoinB:
            return running && !who[o - SoJoinA];
        case SoLeftA:
        case SoLeftB:
            return running && who[o - SoLeftA];
        case SoDataA:
        case SoDataB:
            return running && who[o - SoDataA];
        case SoUnknown:
        case SoBroken:
        case SoShort:
        case SoEmpty:
        case SoOther:
        case SoClose:
            return running;
        case SoWriteA:
        case SoWriteB:
            return running && who[o - SoWriteA];
        case SoKickA:
        case SoKickB:
            return running && who[o - SoKickA] && outstanding < 2;
        case SoAnswer:
            return running && outstanding;
        case SoStop:
            return enabled;
        case SoStart:
            return true;
        case SoWait:
            return !running || outstanding == 0;
        }
        return false;
    }
    void apply(int o)
    {
        switch (o) {
        case SoJoinA:
        case SoJoinB:
            who[o - SoJoinA] = next++;
            break;
        case SoLeftA:
        case SoLeftB:
            who[o - SoLeftA] = 0;
            break;
        case SoKickA:
        case SoKickB:
            outstanding++;
            break;
        case SoAnswer:
            outstanding--;
            break;
        case SoClose:
            lose();
            break;
        case SoStop:
            lose();
            enabled = false;
            break;
        case SoStart:
            lose();
            running = enabled = true;
            break;
        case SoWait:
            if (enabled)
                running = true;
            break;
        }
    }
};

static void socketsDialogue(const std::vector<int> &ops, Ctx &ctx, bool joined)
{
    SocketsRig r(ctx, false);
    SocketsModel m;
    int noteId = 0;
    if (!r.start())
        return;
    std::vector<int> all = ops;
    if (joined)
        all.insert(all.begin(), {SoJoinA, SoJoinB});
    int regs = 1;
    for (size_t i = 0; i < all.size() && !ctx.failed; ++i) {
        int o = all[i];
        QString where = QString("step %1").arg(i + 1);
        if (!r.outstanding.empty()) // the proxy numbers its notifications independently of the requests
            noteId = r.outstanding[0].value("id").toInt();
        SocketsModel before = m;
        m.apply(o);
        QByteArray wantLog;
        QByteArray wantFrame;
        int wantAddr = -1, kicked = -1;
        r.log.clear();
        r.frames.clear();
        size_t outBefore = r.outstanding.size();
        FakeEnd *e = r.proxy.last();
        auto lost = [&] {
            for (int k = 0; k < 2; ++k)
                if (before.who[k])
                    wantLog += "-" + QByteArray::number(kAddr[k]) + "/" + QByteArray::number(before.who[k]) + " ";
        };
        switch (o) {
        case SoJoinA:
        case SoJoinB:
            r.frame(0, wire::joined(noteId++, kAddr[o - SoJoinA], m.who[o - SoJoinA]));
            wantLog = "+" + QByteArray::number(kAddr[o - SoJoinA]) + "/" + QByteArray::number(m.who[o - SoJoinA]) + " ";
            break;
        case SoLeftA:
        case SoLeftB:
            r.frame(0, wire::left(noteId++, kAddr[o - SoLeftA]));
            wantLog = "-" + QByteArray::number(kAddr[o - SoLeftA]) + "/" + QByteArray::number(before.who[o - SoLeftA]) + " ";
            break;
        case SoDataA:
        case SoDataB:
            r.frame(kAddr[o - SoDataA], kData[o - SoDataA]);
            wantLog = QByteArray::number(kAddr[o - SoDataA]) + ":" + kData[o - SoDataA].toHex() + " ";
            break;
        case SoUnknown:
            r.frame(5, "nobody");
            break;
        case SoBroken:
            e->send(QByteArray("\x00\x01xx\xDBzz\xC0", 8));
            break;
        case SoShort:
            e->send(QByteArray("\x01\xC0", 2));
            break;
        case SoEmpty:
            e->send("\xC0\xC0\xC0");
            break;
        case SoOther:
            r.frame(0, wire::note(noteId++, "TunnelProxy.SomethingNew", QVariantMap{{"socketAddress", 1}}));
            break;
        case SoWriteA:
        case SoWriteB: {
            SocketsRig::Rec *rec = r.live(kAddr[o - SoWriteA]);
            wantAddr = kAddr[o - SoWriteA];
            wantFrame = kData[1 - (o - SoWriteA)];
            if (rec && rec->s)
                rec->s->writeData(wantFrame);
            break;
        }
        case SoKickA:
        case SoKickB: {
            SocketsRig::Rec *rec = r.live(kAddr[o - SoKickA]);
            kicked = kAddr[o - SoKickA];
            if (rec && rec->s)
                rec->s->disconnectSocket();
            break;
        }
        case SoAnswer:
            r.frame(0, wire::registered(r.outstanding[0].value("id").toInt(), false));
            r.outstanding.erase(r.outstanding.begin());
            outBefore--;
            break;
        case SoClose:
            e->close();
            lost();
            break;
        case SoStop:
            r.srv->stopServer();
            lost();
            break;
        case SoStart:
            r.srv->startServer(r.proxy.url());
            lost();
            regs++;
            break;
        case SoWait:
            if (before.enabled && !before.running)
                regs++;
            for (int k = 0; k < 6; ++k) {
                r.w.advance(1000);
                r.settle();
            }
            break;
        }
        r.settle();
        ctx.step();
        ctx.observe(r.log);
        if (r.odd)
            ctx.fail("sockets:sent", where + ": the proxy received something it cannot decode");
        if (r.srv->running() != m.running || r.announced != m.running)
            ctx.fail("sockets:running", QString("%1: running() is %2, announced %3, expected %4").arg(where).arg(r.srv->running()).arg(r.announced).arg(m.running));
        if (r.registrations != regs)
            ctx.fail("sockets:register", QString("%1: registered %2 times, expected %3").arg(where).arg(r.registrations).arg(regs));
        if (r.proxy.open() != (m.running ? 1 : 0))
            ctx.fail("sockets:connections", QString("%1: the proxy has %2 connections").arg(where).arg(r.proxy.open()));
        QList<QByteArray> a = r.log.split(' '), b = wantLog.split(' ');
        if (o == SoClose || o == SoStop || o == SoStart) { // in any order
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
        }
        if (a != b)
            ctx.fail("sockets:events", where + ": reported \"" + QString(r.log).left(200) + "\", expected \"" + QString(wantLog).left(200) + "\"");
        for (auto &rec : r.recs)
            if (rec->disconnected != rec->ends || rec->ends > 1)
                ctx.fail("sockets:gone", QString("%1: a client's end was reported %2 and %3 times").arg(where).arg(rec->ends).arg(rec->disconnected));
        int live = !!m.who[0] + !!m.who[1];
        if (r.srv->findChildren<TunnelProxySocket *>().size() != live)
            ctx.fail("sockets:kept", QString("%1: %2 socket objects, %3 clients").arg(where).arg(r.srv->findChildren<TunnelProxySocket *>().size()).arg(live));
        if (r.frames.size() != (wantAddr >= 0 ? 1u : 0u) || (wantAddr >= 0 && (r.frames[0].addr != wantAddr || r.frames[0].data != wantFrame)))
            ctx.fail("sockets:sent", QString("%1: the proxy received %2 frames").arg(where).arg(r.frames.size()));
        if (m.running && o != SoStart && o != SoWait) {
            if (r.outstanding.size() != outBefore + (kicked >= 0 ? 1 : 0))
                ctx.fail("sockets:request", QString("%1: %2 requests are waiting for an answer").arg(where).arg(r.outstanding.size()));
            else if (kicked >= 0 && (r.outstanding.back().value("method").toString() != "TunnelProxy.DisconnectClient" || r.outstanding.back().value("params").toMap().value("socketAddress").toInt() != kicked))
                ctx.fail("sockets:request", where + ": requested " + QString(sorted(r.outstanding.back())));
        }
        ctx.state(QByteArray::number(m.running) + (m.enabled ? "e" : "-") + (m.who[0] ? "A" : "") + (m.who[1] ? "B" : "") + QByteArray::number(m.outstanding) + QByteArray::number(r.srv->state()));
    }
    ctx.outcome(r.log);
}

static SequenceCheck *c20Dialogue(bool joined)
{
    SequenceCheck *s = new SequenceCheck;
    s->name = joined ? "two clients" : "no client";
    s->ops = QStringList{"A joins", "B joins", "A leaves", "B leaves", "data from A", "data from B", "data from nobody", "a damaged frame", "a short frame", "empty frames", "an unknown notification", "write to A", "write to B", "disconnect A", "disconnect B", "answered", "proxy closes", "stopServer", "startServer", "6 s"};
    s->depth = 4;
    s->depthThorough = joined ? 5 : 6;
    s->boundsText = QString(joined ? "starting with two clients: " : "starting without clients: ") + "all sequences of %1 operations of {%2} that the model allows";
    s->possible = [joined](const std::vector<int> &p, int o) {
        SocketsModel m;
        if (joined) {
            m.apply(SoJoinA);
            m.apply(SoJoinB);
        }
        for (int x : p)
            m.apply(x);
        return m.possible(o);
    };
    s->execute = [joined](const std::vector<int> &p, Ctx &c) { socketsDialogue(p, c, joined); };
    return s;
}

static CheckReg r20("C20", [] {
    MultiCheck *m = new MultiCheck;
    m->add("cuts", c20Cuts());
    m->add("sizes", c20Sizes());
    m->add("dialogue", c20Dialogue(false));
    m->add("dialogue", c20Dialogue(true));
    return m;
});

// ---- C21: replies and notifications -------------------------------------------------------------------
#include "proxyjsonrpcclient.h"

namespace {
struct Wire : ProxyConnection {
    QByteArray sent;
    void sendData(const QByteArray &d) override { sent += d; }
    void ignoreSslErrors() override {}
    void ignoreSslErrors(const QList<QSslError> &) override {}
    void connectServer(const QUrl &) override {}
    void disconnectServer() override {}
};
}

enum ReplyOp { ReHello, ReServer, ReClient, ReKick, RePing, ReFirst, ReLast, ReMiddle, ReError, ReUnknown, ReAgain, ReJoin, ReLeave, ReOther, ReCount };
struct ReplyModel {
    int waiting = 0, answered = 0;
    bool possible(int o) const
    {
        if (o <= RePing)
            return waiting < 4;
        if (o == ReFirst || o == ReError)
            return waiting > 0;
        if (o == ReLast)
            return waiting > 1;
        if (o == ReMiddle)
            return waiting > 2;
        if (o == ReAgain)
            return answered > 0;
        return true;
    }
    void apply(int o)
    {
        if (o <= RePing)
            waiting++;
        if (o >= ReFirst && o <= ReError) {
            waiting--;
            answered++;
        }
    }
};

static void replies(const std::vector<int> &ops, Ctx &ctx)
{
    Wire conn;
    JsonRpcClient json(&conn);
    struct Waiting {
        JsonReply *reply;
        int id;
        QString method;
        int finished = 0;
    };
    std::vector<std::unique_ptr<Waiting>> all;
    std::vector<Waiting *> waiting;
    Waiting *answered = nullptr;
    QByteArray notes;
    int serial = 0;
    QObject::connect(&json, &JsonRpcClient::tunnelProxyClientConnected, [&](const QString &n, const QUuid &u, const QString &peer, quint16 a) { notes += "+" + QByteArray::number(a) + n.toUtf8() + u.toByteArray() + peer.toUtf8(); });
    QObject::connect(&json, &JsonRpcClient::tunnelProxyClientDisonnected, [&](quint16 a) { notes += "-" + QByteArray::number(a); });
    for (size_t i = 0; i < ops.size() && !ctx.failed; ++i) {
        int o = ops[i];
        QString where = QString("step %1").arg(i + 1);
        notes.clear();
        QByteArray want;
        Waiting *due = nullptr;
        std::vector<int> before;
        for (auto &x : all)
            before.push_back(x->finished);
        int collide = waiting.empty() ? 0 : waiting[i % waiting.size()]->id;
        int addr = 65535 - (int)i;
        serial++;
        if (o <= RePing) {
            conn.sent.clear();
            JsonReply *r = o == ReHello ? json.callHello() : o == ReServer ? json.callRegisterServer(uuidOf(1), "s") : o == ReClient ? json.callRegisterClient(uuidOf(2), "c", uuidOf(1)) : o == ReKick ? json.callDisconnectClient((quint16)addr) : json.callPing(12345);
            bool slip = o == ReKick || o == RePing;
            QByteArray b = conn.sent, line = conn.sent;
            if (slip) {
                std::vector<ref::Frame> f = ref::slipDecode(b);
                if (f.size() != 1 || !b.isEmpty() || !f[0].valid || f[0].addr != 0) {
                    ctx.fail("replies:request", where + ": the request is not one frame to the proxy");
                    return;
                }
                line = f[0].data;
            }
            QVariantMap m = QJsonDocument::fromJson(line).toVariant().toMap();
            static const char *names[] = {"RemoteProxy.Hello", "TunnelProxy.RegisterServer", "TunnelProxy.RegisterClient", "TunnelProxy.DisconnectClient", "TunnelProxy.Ping"};
            if (!line.endsWith("\n") || line.count('\n') != 1 || m.value("method").toString() != names[o] || !m.contains("id")) {
                ctx.fail("replies:request", where + ": sent " + QString(line).left(200));
                return;
            }
            QVariantMap p = m.value("params").toMap();
            if ((o == ReKick && p.value("socketAddress").toInt() != addr) || (o == RePing && p.value("timestamp").toInt() != 12345))
                ctx.fail("replies:request", where + ": wrong parameters " + QString(sorted(p)));
            all.emplace_back(new Waiting);
            Waiting *x = all.back().get();
            x->reply = r;
            x->id = m.value("id").toInt();
            x->method = names[o];
            QObject::connect(r, &JsonReply::finished, [x] { x->finished++; });
            for (Waiting *y : waiting)
                if (y->id == x->id)
                    ctx.fail("replies:id", QString("%1: two requests wait for a reply with the id %2").arg(where).arg(x->id));
            waiting.push_back(x);
            before.push_back(0);
        } else if (o >= ReFirst && o <= ReError) {
            size_t k = o == ReFirst || o == ReError ? 0 : o == ReLast ? waiting.size() - 1 : waiting.size() / 2;
            due = waiting[k];
            waiting.erase(waiting.begin() + k);
            answered = due;
            json.processData(o == ReError ? wire::error(due->id) : wire::ok(due->id, QVariantMap{{"serial", serial}}));
        } else if (o == ReUnknown) {
            json.processData(wire::ok(77777, QVariantMap()));
        } else if (o == ReAgain) {
            bool reused = false;
            for (Waiting *y : waiting)
                reused = reused || y->id == answered->id;
            if (!reused)
                json.processData(wire::ok(answered->id, QVariantMap()));
        } else if (o == ReJoin) {
            json.processData(wire::joined(collide, addr, 9));
            want = "+" + QByteArray::number(addr) + "client {9}" + uuidOf(9).toByteArray() + "10.0.0.9";
        } else if (o == ReLeave) {
            json.processData(wire::left(collide, addr));
            want = "-" + QByteArray::number(addr);
        } else if (o == ReOther) {
            json.processData(wire::note(collide, "RemoteProxy.Whatever", QVariantMap{{"status", "success"}}));
        }
        ctx.step();
        ctx.observe(notes);
        if (notes != want)
            ctx.fail("replies:notification", where + ": reported \"" + QString(notes) + "\", expected \"" + QString(want) + "\"");
        for (size_t k = 0; k < all.size(); ++k) {
            int n = all[k]->finished - before[k];
            if (n != (all[k].get() == due ? 1 : 0))
                ctx.fail("replies:finished", QString("%1: the reply to %2 finished %3 times").arg(where, all[k]->method).arg(n));
        }
        if (due && !ctx.failed) {
            QVariantMap m = due->reply->response();
            bool good = o == ReError ? m.value("status").toString() == "error" : m.value("status").toString() == "success" && m.value("params").toMap().value("serial").toInt() == serial;
            if (!good)
                ctx.fail("replies:response", where + ": the reply carries " + QString(sorted(m)));
        }
        ctx.state(QByteArray::number((int)waiting.size()) + "," + QByteArray::number((int)all.size()));
    }
    ctx.outcome(QByteArray::number((int)all.size()) + notes.left(1));
}

// the same messages however they are cut or joined
static ListCheck *c21Cuts()
{
    return new ListCheck("responses and notifications with nested objects, braces and escaped characters in strings, joined and cut at every position and every pair of positions",
        [](ListCheck &l, bool thorough) {
            auto item = [](Ctx &ctx, std::vector<int> cuts, int step) {
                Wire conn;
                JsonRpcClient json(&conn);
                QByteArray log;
                QObject::connect(&json, &JsonRpcClient::tunnelProxyClientConnected, [&](const QString &n, const QUuid &, const QString &, quint16 a) { log += "+" + QByteArray::number(a) + n.toUtf8(); });
                QObject::connect(&json, &JsonRpcClient::tunnelProxyClientDisonnected, [&](quint16 a) { log += "-" + QByteArray::number(a); });
                std::vector<int> ids;
                for (int i = 0; i < 2; ++i) {
                    conn.sent.clear();
                    JsonReply *r = i ? json.callRegisterServer(uuidOf(1), "x") : json.callHello();
                    ids.push_back(QJsonDocument::fromJson(conn.sent).toVariant().toMap().value("id").toInt());
                    QObject::connect(r, &JsonReply::finished, [&log, r] { log += "r" + r->response().value("params").toMap().value("t").toByteArray(); });
                }
                QVariantMap p1{{"t", "}\n{"}, {"x", QVariantMap{{"y", QVariantMap()}}}}, p2{{"t", "\"}"}};
                QVariantMap j;
                j["clientName"] = "}\n{\"n";
                j["clientUuid"] = uuidOf(5).toString();
                j["clientPeerAddress"] = "10.0.0.5";
                j["socketAddress"] = 5;
                QByteArray all = wire::ok(ids[1], p1) + wire::note(0, "TunnelProxy.ClientConnected", j) + wire::ok(ids[0], p2) + wire::left(1, 5);
                if (step)
                    for (int i = step; i < all.size(); i += step)
                        cuts.push_back(i);
                int from = 0;
                for (size_t i = 0; i <= cuts.size(); ++i) {
                    int to = i < cuts.size() ? std::min(cuts[i], all.size()) : all.size();
                    json.processData(all.mid(from, to - from));
                    from = to;
                }
                ctx.step();
                ctx.observe(log);
                if (log != "r}\n{+5}\n{\"nr\"}-5")
                    ctx.fail("replies:cut", "reported " + QString(log));
            };
            const int size = 420;
            for (int s = 0; s < 64; ++s)
                l.add(QString("pieces of %1").arg(s), [=](Ctx &x) { item(x, {}, s); });
            for (int c = 1; c < size; ++c)
                l.add(QString("cut at %1").arg(c), [=](Ctx &x) { item(x, {c}, 0); });
            for (int c = 1; c < size; c += thorough ? 1 : 3)
                for (int d = c + 1; d < size; d += thorough ? 1 : 3)
                    l.add(QString("cut at %1 and %2").arg(c).arg(d), [=](Ctx &x) { item(x, {c, d}, 0); });
        });
}

// a long life: ids beyond every small integer
static ListCheck *c21Many()
{
    return new ListCheck("70000 calls on one connection, 1 to 300 of them waiting at a time, answered in order, in reverse order or from the middle",
        [](ListCheck &l, bool) {
            for (int window : {1, 2, 7, 300})
                for (int order = 0; order < 3; ++order)
                    l.add(QString("%1 waiting, %2").arg(window).arg(order == 0 ? "in order" : order == 1 ? "in reverse order" : "from the middle"), [=](Ctx &ctx) {
                        Wire conn;
                        JsonRpcClient json(&conn);
                        struct W {
                            JsonReply *r;
                            int id, serial;
                        };
                        std::vector<W> waiting;
                        int finished = -1, count = 0, serial = 0;
                        while (serial < 70000 && !ctx.failed) {
                            while ((int)waiting.size() < window) {
                                conn.sent.clear();
                                JsonReply *r = json.callHello();
                                int id = QJsonDocument::fromJson(conn.sent).toVariant().toMap().value("id").toInt();
                                int n = serial++;
                                QObject::connect(r, &JsonReply::finished, [&finished, &count, n] { finished = n; count++; });
                                waiting.push_back({r, id, n});
                            }
                            int take = std::max(1, window / 2);
                            while (take-- && !ctx.failed) {
                                size_t k = order == 0 ? 0 : order == 1 ? waiting.size() - 1 : waiting.size() / 2;
                                W x = waiting[k];
                                waiting.erase(waiting.begin() + k);
                                finished = -1;
                                count = 0;
                                json.processData(wire::ok(x.id, QVariantMap{{"serial", x.serial}}));
                                ctx.step();
                                if (count != 1 || finished != x.serial || x.r->response().value("params").toMap().value("serial").toInt() != x.serial)
                                    ctx.fail("replies:many", QString("call %1 (id %2): %3 replies finished, the last is the one of call %4").arg(x.serial).arg(x.id).arg(count).arg(finished));
                                delete x.r;
                            }
                        }
                        ctx.observe(QByteArray::number(serial));
                        ctx.state(QByteArray::number(window) + QByteArray::number(order));
                    });
        });
}

// messages that say nothing to anybody, next to those that do
static std::vector<Payload> unreadable()
{
    std::vector<Payload> v{
        {"text", "hello"}, {"nothing", ""}, {"a space", " "}, {"an opening brace", "{"}, {"a closing brace", "}"}, {"an empty list", "[]"}, {"a list of ids", "[0,1,2]"},
        {"a number", "0"}, {"null", "null"}, {"true", "true"}, {"a string", "\"id\""}, {"an empty object", "{}"}, {"a success without an id", "{\"status\":\"success\",\"params\":{\"serial\":9}}"},
        {"an error without an id", "{\"status\":\"error\",\"error\":\"x\"}"}, {"null as the id", "{\"id\":null,\"status\":\"success\",\"params\":{\"serial\":9}}"},
        {"an object as the id", "{\"id\":{},\"status\":\"success\",\"params\":{\"serial\":9}}"}, {"a list as the id", "{\"id\":[0],\"status\":\"success\",\"params\":{\"serial\":9}}"},
        {"text as the id", "{\"id\":\"x\",\"status\":\"success\",\"params\":{\"serial\":9}}"}, {"the error with the id -1", "{\"id\":-1,\"status\":\"error\",\"error\":\"Failed to parse\"}"},
        {"a large id", "{\"id\":2147483647,\"status\":\"success\",\"params\":{}}"}, {"a cut message", "{\"id\":0,\"status\":\"success\",\"params\":{\"serial\":9}"}, {"a message too many braces", "{\"id\":0,\"status\":\"success\"}}"},
        {"bytes", QByteArray("\x00\xC0\xDB\xFF\x80", 5)}, {"a lot of bytes", QByteArray(20000, 'x')}, {"deeply nested", QByteArray(3000, '[') + QByteArray(3000, ']')},
        {"a notification of nobody", "{\"id\":0,\"notification\":\"TunnelProxy.ClientMoved\",\"params\":{\"socketAddress\":5}}"}, {"a notification of another space", "{\"id\":0,\"notification\":\"Other.ClientConnected\",\"params\":{\"socketAddress\":5}}"},
        {"a notification without a name", "{\"id\":0,\"notification\":\"\",\"params\":{}}"}, {"an object as notification", "{\"id\":0,\"notification\":{},\"status\":\"success\"}"},
    };
    return v;
}

static ListCheck *c21Unreadable()
{
    return new ListCheck("29 messages without a meaning before, between and behind the responses to one to three calls and notifications, as their own packet, joined with the others and byte by byte",
        [](ListCheck &l, bool) {
            for (const Payload &bad : unreadable())
                for (int n = 1; n <= 3; ++n)
                    for (int where = 0; where <= n; ++where)
                        for (int form = 0; form < 3; ++form)
                            for (int reverse = 0; reverse < (n > 1 ? 2 : 1); ++reverse)
                                l.add(QString("%1, %2 calls%3, before response %4, %5").arg(bad.name).arg(n).arg(reverse ? " answered in reverse" : "").arg(where).arg(form == 0 ? "own packet" : form == 1 ? "joined" : "byte by byte"), [=](Ctx &ctx) {
                                    Wire conn;
                                    JsonRpcClient json(&conn);
                                    QByteArray log, want;
                                    QObject::connect(&json, &JsonRpcClient::tunnelProxyClientConnected, [&](const QString &, const QUuid &, const QString &, quint16 a) { log += "+" + QByteArray::number(a); });
                                    QObject::connect(&json, &JsonRpcClient::tunnelProxyClientDisonnected, [&](quint16 a) { log += "-" + QByteArray::number(a); });
                                    std::vector<int> ids;
                                    for (int i = 0; i < n; ++i) {
                                        conn.sent.clear();
                                        JsonReply *r = json.callHello();
                                        ids.push_back(QJsonDocument::fromJson(conn.sent).toVariant().toMap().value("id").toInt());
                                        QObject::connect(r, &JsonReply::finished, [&log, r, i] { log += "r" + QByteArray::number(i) + r->response().value("params").toMap().value("serial").toByteArray(); });
                                    }
                                    std::vector<QByteArray> parts;
                                    for (int i = 0; i <= n; ++i) {
                                        if (i == where)
                                            parts.push_back(bad.data + "\n");
                                        if (i == n)
                                            break;
                                        int k = reverse ? n - 1 - i : i;
                                        parts.push_back(wire::ok(ids[k], QVariantMap{{"serial", 50 + k}}));
                                        parts.push_back(wire::left(0, 7));
                                        want += "r" + QByteArray::number(k) + QByteArray::number(50 + k) + "-7";
                                    }
                                    QByteArray all;
                                    for (const QByteArray &b : parts)
                                        all += b;
                                    if (form == 0)
                                        for (const QByteArray &b : parts)
                                            json.processData(b);
                                    else if (form == 1)
                                        json.processData(all);
                                    else
                                        for (int i = 0; i < all.size(); ++i)
                                            json.processData(all.mid(i, 1));
                                    ctx.step();
                                    ctx.observe(log);
                                    ctx.state(log);
                                    if (log != want)
                                        ctx.fail("replies:unreadable", "reported " + QString(log) + ", expected " + QString(want));
                                });
        });
}

static CheckReg r21("C21", [] {
    MultiCheck *m = new MultiCheck;
    m->add("cuts", c21Cuts());
    m->add("many", c21Many());
    m->add("unreadable", c21Unreadable());
    SequenceCheck *s = new SequenceCheck;
    s->ops = QStringList{"Hello", "RegisterServer", "RegisterClient", "DisconnectClient", "Ping", "oldest answered", "newest answered", "middle answered", "oldest answered with an error", "unknown id", "answered again", "client joins", "client leaves", "other notification"};
    s->depth = 5;
    s->depthThorough = 6;
    s->boundsText = "all sequences of %1 operations of {%2} that the model allows, up to four requests waiting, notifications with the id of a waiting request";
    s->possible = [](const std::vector<int> &p, int o) {
        ReplyModel r;
        for (int x : p)
            r.apply(x);
        return r.possible(o);
    };
    s->execute = replies;
    m->add("sequences", s);
    return m;
});

// ---- C22: staying registered ------------------------------------------------------------------------
enum Fate { FaRefused, FaRefusedNow, FaNoRoute, FaNoHost, FaSilent, FaClosed, FaClosedAtHello, FaHelloError, FaClosedAtRegister, FaRegisterError, FaRegisterRefused, FaLostSoon, FaLostLater, FaCount };
static const char *kFates[] = {"refused", "refused at once", "no route", "no host", "never answered", "closed", "closed at Hello", "Hello error", "closed at registration", "registration error", "registration refused", "lost after 1 s", "lost after 40 s"};

struct Keeper : SocketsRig {
    Keeper(Ctx &c, bool ws) : SocketsRig(c, ws) { autoRegister = false; }
    bool request(const char *method, const QString &where)
    {
        settle();
        if (outstanding.size() != 1 || outstanding[0].value("method").toString() != method) {
            ctx.fail("keep:request", QString("%1: expected %2, %3 requests are waiting%4").arg(where, method).arg(outstanding.size()).arg(outstanding.empty() ? QString() : ": " + QString(sorted(outstanding[0]))));
            return false;
        }
        return true;
    }
    int id()
    {
        int i = outstanding[0].value("id").toInt();
        outstanding.clear();
        return i;
    }
    static bool unheard(int fate) { return fate <= FaSilent; }
    int patience = 6000; // until the next attempt
    // makes the environment of the next attempt
    void arrange(int fate)
    {
        if (fate == FaRefused || fate == FaRefusedNow)
            proxy.unlisten();
        else
            proxy.listen();
        sim::setConnectMode(fate == FaRefusedNow || fate == FaNoRoute ? sim::ConnectSync : sim::ConnectAsync);
        sim::failConnects(fate == FaNoRoute ? ENETUNREACH : fate == FaNoHost ? EHOSTUNREACH : fate == FaSilent ? -1 : 0);
    }
    // the attempt is under way; lets it fail
    void suffer(int fate, const QString &where)
    {
        settle();
        if (unheard(fate))
            return;
        FakeEnd *e = proxy.last();
        if (!e || e->closed()) {
            ctx.fail("keep:attempt", where + ": no connection");
            return;
        }
        if (fate == FaClosed) {
            e->close();
        } else {
            if (!request("RemoteProxy.Hello", where))
                return;
            if (fate == FaClosedAtHello) {
                e->close();
            } else if (fate == FaHelloError) {
                e->send(wire::error(id()));
            } else {
                e->send(wire::hello(id()));
                if (!request("TunnelProxy.RegisterServer", where))
                    return;
                if (fate == FaClosedAtRegister) {
                    e->close();
                } else if (fate == FaRegisterError) {
                    e->send(wire::error(id()));
                } else if (fate == FaRegisterRefused) {
                    e->send(wire::refused(id()));
                } else {
                    e->send(wire::registered(id(), true));
                    slip.insert((int)proxy.ends.size() - 1);
                    settle();
                    if (!srv->running())
                        ctx.fail("keep:running", where + ": not running although registered");
                    pass(fate == FaLostSoon ? 1000 : 40000);
                    e->close();
                }
            }
        }
        settle();
        ctx.step();
        if (srv->running())
            ctx.fail("keep:running", where + ": running after that");
        if (proxy.open() != 0)
            ctx.fail("keep:connection", where + ": the connection is left open");
    }
    void pass(int ms)
    {
        for (int t = 0; t < ms; t += 500) {
            w.advance(std::min(500, ms - t));
            settle();
        }
    }
    // waits for the next attempt; for refused ones there is nothing to see at the proxy
    bool attempt(size_t before, const QString &where)
    {
        for (int t = 0; t <= patience && proxy.ends.size() == before; t += 500)
            pass(500);
        ctx.step();
        if (proxy.ends.size() != before + 1) {
            ctx.fail("keep:attempt", QString("%1: %2 attempts to connect again within %3 s").arg(where).arg(proxy.ends.size() - before).arg(patience / 1000));
            return false;
        }
        return true;
    }
};

// fates[0..] are met in turn, then everything is well
static void keepTrying(Ctx &ctx, Keeper &k, const std::vector<int> &fates, bool again)
{
    k.arrange(fates[0]);
    if (fates[0] == FaSilent)
        k.patience = 36000;
    k.srv->startServer(k.proxy.url());
    for (size_t i = 0; i < fates.size() && !ctx.failed; ++i) {
        QString where = QString("attempt %1 (%2)").arg(i + 1).arg(kFates[fates[i]]);
        k.suffer(fates[i], where);
        if (ctx.failed)
            return;
        int next = i + 1 < fates.size() ? fates[i + 1] : FaLostSoon;
        k.arrange(next);
        if (Keeper::unheard(next)) {
            k.pass(k.patience); // at least one attempt went unheard
            if (next == FaSilent)
                k.patience = 36000; // Qt gives up after 30 s
            continue;
        }
        if (!k.attempt(k.proxy.ends.size(), where))
            return;
        k.patience = 6000;
    }
    k.suffer(FaLostSoon, "finally");
    if (again && !k.attempt(k.proxy.ends.size(), "after that"))
        return;
    ctx.observe(QByteArray::number((int)k.proxy.ends.size()));
    ctx.state(QByteArray::number((int)k.proxy.ends.size()) + QByteArray::number(k.srv->state()));
    ctx.outcome(QByteArray::number((int)k.proxy.ends.size()));
}

static void keepTrying(Ctx &ctx, bool ws, const std::vector<int> &fates)
{
    Keeper k(ctx, ws);
    keepTrying(ctx, k, fates, false);
}

// stages of a running attempt at which something is called
static const char *kStages[] = {"waiting to try again", "being connected", "connected", "registering", "running", "running with a client", "refused"};
static bool toStage(Keeper &k, int stage)
{
    QString where = kStages[stage];
    k.arrange(stage == 0 || stage == 6 ? FaRefused : FaLostSoon);
    k.srv->startServer(k.proxy.url());
    if (stage == 1)
        return true;
    k.settle();
    if (stage == 6)
        return true;
    if (stage == 0) {
        k.pass(2000);
        return true;
    }
    if (stage == 2)
        return k.request("RemoteProxy.Hello", where);
    if (!k.request("RemoteProxy.Hello", where))
        return false;
    k.proxy.last()->send(wire::hello(k.id()));
    if (!k.request("TunnelProxy.RegisterServer", where))
        return false;
    if (stage == 3)
        return true;
    k.proxy.last()->send(wire::registered(k.id(), true));
    k.slip.insert((int)k.proxy.ends.size() - 1);
    k.settle();
    if (stage == 5) {
        k.frame(0, wire::joined(0, kAddr[0], 11));
        k.settle();
        if (!k.live(kAddr[0]))
            k.ctx.fail("keep:client", "no socket for the client");
    }
    return k.srv->running();
}

static ListCheck *c22Fates()
{
    return new ListCheck("all sequences of three (thorough: four) fates of connection attempts out of thirteen, then a good one; TCP and web socket",
        [](ListCheck &l, bool thorough) {
            for (int ws = 0; ws < 2; ++ws)
                for (int n = 1; n <= (thorough ? 4 : 3); ++n) {
                    std::vector<int> f(n, 0);
                    for (;;) {
                        QStringList t;
                        bool possible = true;
                        for (int x : f) {
                            t << kFates[x];
                            possible = possible && !(ws && (x == FaRefusedNow || x == FaNoRoute));
                        }
                        std::vector<int> g = f;
                        if (possible && !(ws && n == 4))
                            l.add(QString(ws ? "ws: " : "tcp: ") + t.join(", "), [=](Ctx &x) { keepTrying(x, ws, g); });
                        int i = n - 1;
                        while (i >= 0 && ++f[i] == FaCount)
                            f[i--] = 0;
                        if (i < 0)
                            break;
                    }
                }
        });
}

static ListCheck *c22Answers()
{
    return new ListCheck("every answer to Hello and to the registration of a server - accepted, errors of every kind, each reason of a refusal, unknown and missing ones - one to three times in a row, then accepted",
        [](ListCheck &l, bool) {
            for (int ws = 0; ws < 2; ++ws)
                for (int stage = 0; stage < 2; ++stage)
                    for (const Answer &a : answers(stage == 0, true))
                        for (int times = 1; times <= 3; ++times)
                            l.add(QString("%1, %2: %3, %4 times").arg(ws ? "ws" : "tcp", stage ? "RegisterServer" : "Hello", a.name).arg(times), [=](Ctx &ctx) {
                                Keeper k(ctx, ws);
                                k.arrange(FaLostSoon);
                                k.srv->startServer(k.proxy.url());
                                k.settle();
                                for (int n = 0; n < times && !ctx.failed; ++n) {
                                    QString where = QString("attempt %1").arg(n + 1);
                                    if (!k.request("RemoteProxy.Hello", where))
                                        return;
                                    bool good = true;
                                    if (stage == 0) {
                                        k.proxy.last()->send(answerWire(a, k.id()));
                                        good = a.good;
                                    } else {
                                        k.proxy.last()->send(wire::hello(k.id()));
                                    }
                                    k.settle();
                                    if (good) {
                                        if (!k.request("TunnelProxy.RegisterServer", where))
                                            return;
                                        if (stage == 1) {
                                            k.proxy.last()->send(answerWire(a, k.id()));
                                            good = a.good;
                                        } else {
                                            k.proxy.last()->send(wire::registered(k.id(), true));
                                        }
                                        if (good)
                                            k.slip.insert((int)k.proxy.ends.size() - 1);
                                        k.settle();
                                    }
                                    ctx.step();
                                    if (k.srv->running() != good) {
                                        ctx.fail("keep:running", QString("%1: running is %2").arg(where).arg(k.srv->running()));
                                        return;
                                    }
                                    if (good)
                                        k.proxy.last()->close();
                                    k.settle();
                                    if (k.proxy.open())
                                        ctx.fail("keep:connection", where + ": the connection is left open");
                                    if (!k.attempt(k.proxy.ends.size(), where))
                                        return;
                                }
                                k.suffer(FaLostSoon, "finally");
                                ctx.observe(QByteArray::number((int)k.proxy.ends.size()));
                                ctx.state(a.name.toUtf8() + QByteArray::number(k.srv->state()));
                            });
        });
}

static ListCheck *c22Histories()
{
    return new ListCheck("each fate, and two fates in turn, 10 to 100 times (refused ones up to 1000 times); the descriptors running out for one to 20 attempts, also after a loss: tried again within 6 s each time, and after all of them the server is registered for five minutes (TCP: heard from within every 60 s)",
        [](ListCheck &l, bool thorough) {
            auto live = [](Keeper &k, bool ws) {
                k.settle();
                Ctx &ctx = k.ctx;
                if (!k.request("RemoteProxy.Hello", "finally"))
                    return;
                k.proxy.last()->send(wire::hello(k.id()));
                if (!k.request("TunnelProxy.RegisterServer", "finally"))
                    return;
                k.proxy.last()->send(wire::registered(k.id(), true));
                k.slip.insert((int)k.proxy.ends.size() - 1);
                k.settle();
                qint64 last = sim::nowNs(), worst = 0;
                k.pings = 0;
                for (int now = 0; now < 300000; now += 500) {
                    k.pass(500);
                    if (k.pings) {
                        last = sim::nowNs();
                        k.pings = 0;
                    }
                    worst = std::max(worst, sim::nowNs() - last);
                }
                ctx.step();
                ctx.observe(QByteArray::number(worst));
                if (!k.srv->running() || (!ws && worst > 59000000000LL)) // (frames are no text)
                    ctx.fail("keep:alive", QString("running %1; nothing was sent to the proxy for %2 s; it ends silent servers after 60 s").arg(k.srv->running()).arg(worst / 1000000000LL));
                if (k.proxy.open() != 1)
                    ctx.fail("keep:connection", QString("%1 connections").arg(k.proxy.open()));
            };
            for (int ws = 0; ws < 2; ++ws) {
                for (int a = 0; a < FaCount; ++a)
                    for (int b = a; b < FaCount; ++b)
                        for (int times : {10, 100, 1000}) {
                            bool refused = a <= FaNoRoute && b <= FaNoRoute;
                            if ((a != b && times > (thorough ? 100 : 10)) || (times == 1000 && !refused) || (ws && (a == FaRefusedNow || b == FaRefusedNow || a == FaNoRoute || b == FaNoRoute)))
                                continue;
                            l.add(QString("%1: %2%3, %4 times").arg(ws ? "ws" : "tcp", kFates[a], a == b ? QString() : QString(" and ") + kFates[b]).arg(times), [=](Ctx &ctx) {
                                Keeper k(ctx, ws);
                                std::vector<int> fates;
                                for (int i = 0; i < times; ++i)
                                    fates.push_back(i % 2 ? b : a);
                                keepTrying(ctx, k, fates, true);
                                if (!ctx.failed)
                                    live(k, ws);
                            });
                        }
                for (int times : {1, 2, 3, 5, 20})
                    for (int before = 0; before < 2; ++before)
                        l.add(QString("%1: no descriptor for %2 attempts%3").arg(ws ? "ws" : "tcp").arg(times).arg(before ? " after a loss" : ""), [=](Ctx &ctx) {
                            Keeper k(ctx, ws);
                            k.arrange(FaLostSoon);
                            if (before) {
                                k.srv->startServer(k.proxy.url());
                                k.suffer(FaLostLater, "first");
                            }
                            size_t n = k.proxy.ends.size();
                            sim::failSockets(-1, EMFILE);
                            if (!before)
                                k.srv->startServer(k.proxy.url());
                            for (int i = 0; i < times; ++i)
                                k.pass(6000);
                            ctx.step();
                            if (k.proxy.ends.size() != n || k.srv->running())
                                ctx.fail("keep:setup", "a connection without a descriptor");
                            sim::failSockets(0, 0);
                            if (k.attempt(n, "descriptors again"))
                                live(k, ws);
                        });
            }
        });
}

static ListCheck *c22Stop()
{
    return new ListCheck("stopServer and deleting the object at every stage: no connection is left and none is tried within two minutes; startServer afterwards works",
        [](ListCheck &l, bool) {
            for (int ws = 0; ws < 2; ++ws)
                for (int stage = 0; stage < 7; ++stage)
                    for (int what = 0; what < (ws && stage == 5 ? 0 : 3); ++what) // (frames are no text)
                        l.add(QString("%1, %2, %3").arg(ws ? "ws" : "tcp", kStages[stage], what == 0 ? "stopServer" : what == 1 ? "deleted" : "stopServer twice"), [=](Ctx &ctx) {
                            Keeper k(ctx, ws);
                            if (!toStage(k, stage))
                                return;
                            if (what == 1) {
                                k.srv.reset();
                            } else {
                                k.srv->stopServer();
                                if (what == 2)
                                    k.srv->stopServer();
                            }
                            k.settle();
                            k.arrange(FaLostSoon);
                            size_t n = k.proxy.ends.size();
                            k.outstanding.clear();
                            k.pass(120000);
                            ctx.step();
                            if (k.proxy.open() || k.proxy.ends.size() != n)
                                ctx.fail("keep:stopped", QString("%1 connections open, %2 more tried").arg(k.proxy.open()).arg(k.proxy.ends.size() - n));
                            if (what == 1)
                                return;
                            if (k.srv->running() || k.announced)
                                ctx.fail("keep:stopped", "still running");
                            for (auto &r : k.recs)
                                if (r->ends != 1)
                                    ctx.fail("keep:stopped", "the end of a client was not reported");
                            k.srv->startServer(k.proxy.url());
                            k.suffer(FaLostSoon, "started again");
                            ctx.observe(QByteArray::number((int)k.proxy.ends.size()));
                        });
        });
}

static ListCheck *c22Moves()
{
    return new ListCheck("startServer with another URL at every stage: the old connection ends and stays away, the server registers at the other proxy although that one refuses zero to two times first, and comes back to it when it is lost",
        [](ListCheck &l, bool) {
            for (int ws = 0; ws < 2; ++ws)
                for (int stage = 0; stage < 7; ++stage)
                    for (int refusals = 0; refusals < 3; ++refusals)
                        for (int losses = 0; losses < 3; ++losses) {
                            if (ws && stage == 5)
                                continue; // (frames are no text)
                            l.add(QString("%1, %2, %3 refusals, %4 losses").arg(ws ? "ws" : "tcp", kStages[stage]).arg(refusals).arg(losses), [=](Ctx &ctx) {
                                Keeper k(ctx, ws);
                                FakeProxy other(k.w, kPort + 1, ws);
                                if (!toStage(k, stage))
                                    return;
                                if (!refusals)
                                    other.listen();
                                k.srv->startServer(other.url());
                                k.settle();
                                size_t olds = k.proxy.ends.size();
                                for (int i = 0; i < refusals; ++i) {
                                    if (i + 1 == refusals)
                                        other.listen();
                                    k.pass(6000);
                                }
                                ctx.step();
                                if (k.srv->serverUrl() != other.url())
                                    ctx.fail("keep:moves", "serverUrl() is not the new one");
                                for (int life = 0; life <= losses && !ctx.failed; ++life) {
                                    for (int t = 0; t < 7000 && other.open() == 0; t += 500)
                                        k.pass(500);
                                    FakeEnd *e = other.last();
                                    ctx.step();
                                    if (!e || other.open() != 1)
                                        return ctx.fail("keep:moves", QString("%1 connections to the other proxy").arg(other.open()));
                                    const char *methods[] = {"RemoteProxy.Hello", "TunnelProxy.RegisterServer"};
                                    for (int r = 0; r < 2; ++r) {
                                        k.settle();
                                        auto q = e->requests(false);
                                        if (q.size() != 1 || q[0].value("method").toString() != methods[r])
                                            return ctx.fail("keep:moves", QString("%1 is not asked of the other proxy").arg(methods[r]));
                                        int id = q[0].value("id").toInt();
                                        e->send(r ? wire::registered(id, true) : wire::hello(id));
                                    }
                                    k.settle();
                                    ctx.step();
                                    if (!k.srv->running() || k.srv->serverUrl() != other.url())
                                        ctx.fail("keep:moves", "not running at the other proxy");
                                    k.pass(20000);
                                    if (life < losses) {
                                        e->close();
                                        k.settle();
                                    }
                                }
                                ctx.step();
                                ctx.observe(QByteArray::number((int)other.ends.size()));
                                if (k.proxy.open() || k.proxy.ends.size() > olds)
                                    ctx.fail("keep:moves", "there is a connection to the former proxy");
                                k.srv.reset();
                                k.settle();
                            });
                        }
        });
}

static ListCheck *c22Alive()
{
    return new ListCheck("ten minutes of a registered server with nothing, tunnel data towards it, tunnel data from it, or both, every 1 to 61 s; against the harness's proxy (sends something at least every 59 s) and the real one (stays registered); with one to 300 clients, coming one by one or all at once",
        [](ListCheck &l, bool) {
            for (int clients : {1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 300})
                for (int pace : {0, 1000, 30000}) {
                    if (pace == 30000 && clients > 33)
                        continue;
                    l.add(QString("harness proxy, %1 clients, one every %2 ms").arg(clients).arg(pace), [=](Ctx &ctx) {
                        Keeper k(ctx, false);
                        if (!toStage(k, 4))
                            return;
                        qint64 last = sim::nowNs(), worst = 0;
                        int there = 0;
                        for (int now = 0; now < 300000 + clients * pace; now += 500) {
                            for (; there < clients && there * pace <= now; ++there)
                                k.frame(0, wire::joined(0, 100 + there, 1 + there % 200));
                            k.pass(500);
                            if (k.pings) {
                                last = sim::nowNs();
                                k.pings = 0;
                            }
                            worst = std::max(worst, sim::nowNs() - last);
                        }
                        ctx.step();
                        ctx.observe(QByteArray::number(worst));
                        if ((int)k.recs.size() != clients)
                            ctx.fail("keep:client", QString("%1 clients of %2 are there").arg(k.recs.size()).arg(clients));
                        if (!k.srv->running() || worst > 59000000000LL)
                            ctx.fail("keep:alive", QString("nothing was sent to the proxy for %1 s; it ends silent servers after 60 s").arg(worst / 1000000000LL));
                    });
                }
            for (int ms : {0, 500, 1000, 5000, 10000, 20000, 29000, 30000, 31000, 59000, 61000})
                for (int dir = 1; dir < 4; ++dir) {
                    if (ms == 0 && dir > 1)
                        continue;
                    QString t = ms ? QString("%1 every %2 ms").arg(dir == 1 ? "data to the server" : dir == 2 ? "data from the server" : "data both ways").arg(ms) : "nothing";
                    l.add("harness proxy, " + t, [=](Ctx &ctx) {
                        Keeper k(ctx, false);
                        if (!toStage(k, 5))
                            return;
                        qint64 last = sim::nowNs(), worst = 0;
                        for (int now = 0; now < 600000; now += 500) {
                            k.pass(500);
                            if (ms && now % ms == 0) {
                                if (dir & 1)
                                    k.frame(kAddr[0], "x");
                                if ((dir & 2) && k.live(kAddr[0]))
                                    k.live(kAddr[0])->s->writeData("y");
                                k.settle();
                            }
                            if (k.pings || !k.frames.empty()) {
                                last = sim::nowNs();
                                k.pings = 0;
                                k.frames.clear();
                            }
                            worst = std::max(worst, sim::nowNs() - last);
                        }
                        ctx.step();
                        ctx.observe(QByteArray::number(worst));
                        if (!k.srv->running() || worst > 59000000000LL)
                            ctx.fail("keep:alive", QString("nothing was sent to the proxy for %1 s; it ends silent servers after 60 s").arg(worst / 1000000000LL));
                    });
                    for (bool tls : {false, true})
                        l.add(QString("real proxy%1, ").arg(tls ? " with TLS" : "") + t, [=](Ctx &ctx) {
                            ServerOptions o;
                            o.tls = tls;
                            Fix f(ctx, o);
                            Sockets srv(uuidOf(1), "server");
                            TunnelProxySocket *sock = nullptr;
                            int downs = 0;
                            QObject::connect(&srv, &Sockets::sslErrors, &srv, [&] { srv.ignoreSslErrors(); });
                            QObject::connect(&srv, &Sockets::clientConnected, &srv, [&](TunnelProxySocket *s) { sock = s; });
                            QObject::connect(&srv, &Sockets::clientDisconnected, &srv, [&](TunnelProxySocket *) { sock = nullptr; });
                            QObject::connect(&srv, &Sockets::runningChanged, &srv, [&](bool on) { downs += !on; });
                            srv.startServer(QUrl(QString("%1://127.0.0.1:%2").arg(tls ? "ssl" : "tcp").arg(f.w.tcpPort())));
                            f.settle();
                            Conn *c = f.fresh(Unix);
                            if (!srv.running() || !c->registerClient(uuidOf(2), uuidOf(1)) || !sock) {
                                ctx.fail("keep:setup", "no tunnel");
                                return;
                            }
                            for (int now = 0; now < 600000 && !ctx.failed; now += 500) {
                                f.w.advance(500);
                                if (ms && now % ms == 0) {
                                    if (dir & 1)
                                        c->sendRaw("x");
                                    if ((dir & 2) && sock)
                                        sock->writeData("y");
                                }
                                f.settle();
                                c->take();
                                if (downs || !sock || c->closed())
                                    ctx.fail("keep:alive", QString("the tunnel ended after %1 s").arg(now / 1000));
                            }
                            ctx.step();
                            srv.stopServer();
                            f.settle();
                        });
                }
        });
}

static CheckReg r22("C22", [] {
    MultiCheck *m = new MultiCheck;
    m->add("fates", c22Fates());
    m->add("histories", c22Histories());
    m->add("answers", c22Answers());
    m->add("stop", c22Stop());
    m->add("alive", c22Alive());
    m->add("moves", c22Moves());
    return m;
});

// ---- C23: whatever is called, whenever --------------------------------------------------------------
enum ServerCall { ScNone, ScStart, ScStartElsewhere, ScStop, ScStopStart, ScDelete, ScIgnore, ScIgnoreList, ScWrite, ScKick, ScWriteAll, ScKickAll, ScStopUse, ScCount };
static const char *kServerCalls[] = {"nothing", "startServer", "startServer elsewhere", "stopServer", "stopServer and startServer", "deleteLater", "ignoreSslErrors", "ignoreSslErrors(list)", "writeData", "disconnectSocket", "writeData on every socket", "disconnectSocket on every socket", "stopServer, then writeData and disconnectSocket"};

struct CallRig : SocketsRig {
    int seen = 0;                       // signals so far
    std::vector<std::pair<int, int>> calls; // at which signal, what
    QPointer<Sockets> alive;
    int depth = 0;
    QByteArray names;
    std::vector<QPointer<TunnelProxySocket>> socks;

    CallRig(Ctx &c, const std::vector<std::pair<int, int>> &cl) : SocketsRig(plain, false), real(c), calls(cl)
    {
        alive = srv.get();
        Sockets *s = srv.get();
        QObject::connect(s, &Sockets::stateChanged, s, [this](Sockets::State) { signal("stateChanged"); });
        QObject::connect(s, &Sockets::runningChanged, s, [this](bool) { signal("runningChanged"); });
        QObject::connect(s, &Sockets::errorOccurred, s, [this](QAbstractSocket::SocketError) { signal("errorOccurred"); });
        QObject::connect(s, &Sockets::serverErrorOccurred, s, [this](Sockets::Error) { signal("serverErrorOccurred"); });
        QObject::connect(s, &Sockets::clientConnected, s, [this](TunnelProxySocket *t) {
            socks.push_back(t);
            QObject::connect(t, &TunnelProxySocket::dataReceived, alive.data(), [this, t](const QByteArray &) { signal("dataReceived", t); });
            QObject::connect(t, &TunnelProxySocket::disconnected, alive.data(), [this, t] { signal("disconnected", t); });
            QObject::connect(t, &TunnelProxySocket::connectedChanged, alive.data(), [this, t](bool) { signal("connectedChanged", t); });
            signal("clientConnected", t);
        });
        QObject::connect(s, &Sockets::clientDisconnected, s, [this](TunnelProxySocket *t) { signal("clientDisconnected", t); });
    }
    ~CallRig()
    {
        if (!alive)
            srv.release(); // deleted itself
    }
    bool recording = false;
    QByteArray trace;
    // what follows a stop: a new object and one with a past have to do the same
    void afterwards()
    {
        proxy.listen();
        recording = true;
        trace.clear();
        auto mark = [this](const char *what) {
            settle();
            trace += QString("| %1: %2 open, %3 running, %4 frames | ").arg(what).arg(proxy.open()).arg(alive->running()).arg(frames.size()).toUtf8();
            frames.clear();
        };
        frames.clear();
        alive->startServer(proxy.url());
        mark("start");
        sendFrames(ref::frame(0, wire::joined(0, kAddr[0], 11)) + ref::frame(kAddr[0], kData[0]) + ref::frame(0, wire::left(1, kAddr[0])));
        mark("client");
        sendFrames(ref::frame(0, wire::joined(2, kAddr[1], 12)));
        for (auto &e : proxy.ends)
            e->close();
        mark("lost");
        w.advance(6000);
        mark("reconnect");
        sendFrames(ref::frame(0, wire::joined(0, kAddr[0], 13)));
        use(true);
        mark("client");
        alive->stopServer();
        mark("stop");
        w.advance(6000);
        mark("stopped");
        proxy.unlisten();
        for (int i = 0; i < 2; ++i) {
            alive->startServer(proxy.url());
            mark("refused");
            w.advance(6000);
            mark("refused again");
            alive->stopServer();
            mark("stop");
        }
        alive->startServer(proxy.url());
        mark("refused");
        proxy.listen();
        w.advance(6000);
        mark("reconnect");
        alive->stopServer();
        mark("stop");
        recording = false;
    }
    static QByteArray ofANewOne()
    {
        static QByteArray t;
        if (t.isEmpty()) {
            Ctx c;
            CallRig r(c, {});
            r.afterwards();
            t = r.trace;
        }
        return t;
    }
    Ctx plain; // what the rig itself complains about does not count here
    Ctx &real;
    void signal(const char *n, TunnelProxySocket *t = nullptr)
    {
        int k = seen++;
        names += n;
        names += ' ';
        if (recording && alive) {
            trace += n;
            trace += QString(" %1 %2 [%3] ").arg(int(alive->state())).arg(alive->running()).arg(alive->remoteProxyServerName()).toUtf8();
            if (!strcmp(n, "errorOccurred"))
                trace += QByteArray::number(int(alive->error())) + " ";
            if (!strcmp(n, "serverErrorOccurred"))
                trace += QByteArray::number(int(alive->serverError())) + " ";
            if (t)
                trace += QString("%1 %2 %3 ").arg(t->socketAddress()).arg(t->connected()).arg(t->clientName()).toUtf8();
        }
        if (depth > 3)
            return;
        depth++;
        QPointer<TunnelProxySocket> still = t;
        for (auto &c : calls)
            if (c.first == k)
                call(c.second);
        // whoever is called with a socket may use it up to its return
        if (t && !still)
            real.fail("calls:gone", QString("signal %1 (%2): its tunnel socket is deleted within the slot").arg(k).arg(n));
        depth--;
    }
    void use(bool all)
    {
        for (size_t i = 0; i < socks.size(); ++i) {
            if (!socks[i] || (!all && i))
                continue;
            socks[i]->writeData("from within");
        }
    }
    void kick(bool all)
    {
        for (size_t i = 0; i < socks.size(); ++i) {
            if (!socks[i] || (!all && i))
                continue;
            socks[i]->disconnectSocket();
        }
    }
    void call(int c)
    {
        if (!alive)
            return;
        switch (c) {
        case ScStart:
            alive->startServer(proxy.url());
            break;
        case ScStartElsewhere:
            alive->startServer(QUrl("tcp://127.0.0.1:9"));
            break;
        case ScStop:
            alive->stopServer();
            break;
        case ScStopStart:
            alive->stopServer();
            alive->startServer(proxy.url());
            break;
        case ScDelete:
            alive->deleteLater();
            break;
        case ScIgnore:
            alive->ignoreSslErrors();
            break;
        case ScIgnoreList:
            alive->ignoreSslErrors(QList<QSslError>());
            break;
        case ScWrite:
        case ScWriteAll:
            use(c == ScWriteAll);
            break;
        case ScKick:
        case ScKickAll:
            kick(c == ScKickAll);
            break;
        case ScStopUse:
            alive->stopServer();
            use(true);
            kick(true);
            break;
        }
    }
    void sendFrames(const QByteArray &f)
    {
        FakeEnd *e = proxy.last();
        if (e && !e->closed() && slip.count((int)proxy.ends.size() - 1))
            e->send(f);
        settle();
    }
    void pass(int ms)
    {
        for (int t = 0; t < ms; t += 500) {
            w.advance(500);
            settle();
        }
    }
    // the canonical story, as far as the calls leave it possible
    void story()
    {
        alive->startServer(proxy.url());
        settle();
        sendFrames(ref::frame(0, wire::joined(0, kAddr[0], 11)));
        sendFrames(ref::frame(0, wire::joined(1, kAddr[1], 12)) + ref::frame(kAddr[0], kData[0]) + ref::frame(kAddr[1], kData[1]) + ref::frame(kAddr[0], kData[0]));
        if (alive)
            for (auto &s : socks)
                if (s && s->connected()) {
                    s->disconnectSocket();
                    break;
                }
        settle();
        sendFrames(ref::frame(0, wire::left(2, kAddr[0])) + ref::frame(kAddr[1], kData[1]));
        sendFrames(ref::frame(0, wire::joined(3, kAddr[0], 13)));
        for (auto &e : proxy.ends)
            e->close();
        settle();
        pass(6000);
        sendFrames(ref::frame(0, wire::joined(4, kAddr[0], 14)));
        if (alive)
            alive->stopServer();
        settle();
        proxy.unlisten();
        if (alive)
            alive->startServer(proxy.url());
        settle();
        proxy.listen();
        pass(6000);
    }
    // still usable
    void finish()
    {
        calls.clear();
        if (!alive) {
            settle();
            real.step();
            if (proxy.open())
                real.fail("calls:deleted", "a connection of the deleted object is open");
            return;
        }
        alive->stopServer();
        settle();
        if (alive->running() || proxy.open())
            real.fail("calls:stop", QString("after stopServer: running() is %1, %2 connections").arg(alive->running()).arg(proxy.open()));
        for (auto &s : socks)
            if (s)
                real.fail("calls:kept", "a socket outlives the connection");
        recs.clear();
        log.clear();
        alive->startServer(proxy.url());
        settle();
        real.step();
        if (!alive->running() || proxy.open() != 1) {
            real.fail("calls:start", QString("after startServer: running() is %1, %2 connections").arg(alive->running()).arg(proxy.open()));
            return;
        }
        sendFrames(ref::frame(0, wire::joined(0, kAddr[0], 15)) + ref::frame(kAddr[0], kData[0]));
        if (log != "+1/15 1:" + kData[0].toHex() + " ")
            real.fail("calls:events", "afterwards reported " + QString(log));
        if (live(kAddr[0]) && live(kAddr[0])->s) {
            frames.clear();
            live(kAddr[0])->s->writeData("back");
            settle();
            if (frames.size() != 1 || frames[0].data != "back")
                real.fail("calls:events", "afterwards nothing can be sent");
        }
        real.observe(log);
        if (real.failed)
            return;
        alive->stopServer();
        settle();
        afterwards();
        real.step();
        real.state(trace);
        const QByteArray want = ofANewOne();
        if (trace != want) {
            int i = 0;
            while (i < want.size() && i < trace.size() && want[i] == trace[i])
                ++i;
            real.fail("calls:start", QString("started again it is not as a new object: behind ...%1: %2 instead of %3").arg(QString(want.mid(std::max(0, i - 60), std::min(60, i))), QString(trace.mid(i, 80)), QString(want.mid(i, 80))));
        }
    }
};

static void serverCalls(Ctx &ctx, const std::vector<std::pair<int, int>> &calls)
{
    CallRig r(ctx, calls);
    r.story();
    ctx.observe(r.names.left(200));
    ctx.outcome(r.names);
    ctx.state(r.names);
    r.finish();
}

static int serverSignals()
{
    static int n = -1;
    if (n < 0) {
        Ctx c;
        CallRig r(c, {});
        r.story();
        n = r.seen;
    }
    return n;
}

static ListCheck *c23Server()
{
    return new ListCheck("socket server: every call of the interface from within every signal of a story with three clients, a lost connection, a refused one and a reconnect (and pairs of calls: quick from neighbouring signals, thorough from any two)",
        [](ListCheck &l, bool thorough) {
            CallRig::ofANewOne();
            int n = serverSignals() + 6; // calls make further ones
            for (int k = 0; k < n; ++k)
                for (int c = 1; c < ScCount; ++c) {
                    l.add(QString("%1 from signal %2").arg(kServerCalls[c]).arg(k), [=](Ctx &x) { serverCalls(x, {{k, c}}); });
                    for (int j = k; j < (thorough ? n : std::min(n, k + 2)); ++j)
                        for (int d = 1; d < ScCount; ++d)
                            if (j > k || d != c)
                                l.add(QString("%1 from signal %2, %3 from signal %4").arg(kServerCalls[c]).arg(k).arg(kServerCalls[d]).arg(j), [=](Ctx &x) { serverCalls(x, {{k, c}, {j, d}}); });
                }
            // outside of signals
            for (int stage = -1; stage < 7; ++stage)
                for (int c = 1; c < ScCount; ++c)
                    for (int d = 0; d < ScCount; ++d)
                        l.add(QString("%1: %2, then %3 at once").arg(stage < 0 ? "new" : kStages[stage], kServerCalls[c], kServerCalls[d]), [=](Ctx &ctx) {
                            CallRig r(ctx, {});
                            if (stage >= 0) {
                                r.proxy.unlisten();
                                if (stage != 0 && stage != 6)
                                    r.proxy.listen();
                                r.autoRegister = stage == 4 || stage == 5;
                                r.alive->startServer(r.proxy.url());
                                if (stage != 1)
                                    r.settle();
                                if (stage == 0)
                                    r.pass(2000);
                                if (stage == 3 && !r.outstanding.empty()) {
                                    r.proxy.last()->send(wire::hello(r.outstanding[0].value("id").toInt()));
                                    r.settle();
                                }
                                if (stage == 5)
                                    r.sendFrames(ref::frame(0, wire::joined(0, kAddr[0], 11)));
                                r.proxy.listen();
                            }
                            r.autoRegister = true;
                            r.call(c);
                            r.call(d);
                            r.settle();
                            r.outstanding.clear();
                            r.finish();
                        });
        });
}

enum RemoteCall { RcNone, RcConnect, RcConnectElsewhere, RcDisconnect, RcDisconnectConnect, RcSend, RcDelete, RcIgnore, RcIgnoreList, RcCount };
static const char *kRemoteCalls[] = {"nothing", "connectServer", "connectServer elsewhere", "disconnectServer", "disconnectServer and connectServer", "sendData", "deleteLater", "ignoreSslErrors", "ignoreSslErrors(list)"};

struct RemoteCallRig {
    Ctx &ctx;
    World w;
    FakeProxy proxy;
    QPointer<Remote> rc;
    std::vector<std::pair<int, int>> calls;
    int seen = 0, depth = 0;
    QByteArray names, got;
    std::set<FakeEnd *> up;
    RemoteCallRig(Ctx &c, bool ws, const std::vector<std::pair<int, int>> &cl) : ctx(c), w(c), proxy(w, kPort, ws), calls(cl)
    {
        rc = new Remote(uuidOf(7), "client", ws ? Remote::ConnectionTypeWebSocket : Remote::ConnectionTypeTcpSocket);
        QObject::connect(rc.data(), &Remote::stateChanged, rc.data(), [this](Remote::State) { signal("stateChanged"); });
        QObject::connect(rc.data(), &Remote::remoteConnectedChanged, rc.data(), [this](bool) { signal("remoteConnectedChanged"); });
        QObject::connect(rc.data(), &Remote::errorOccurred, rc.data(), [this](QAbstractSocket::SocketError) { signal("errorOccurred"); });
        QObject::connect(rc.data(), &Remote::dataReady, rc.data(), [this](const QByteArray &d) {
            got += d;
            signal("dataReady");
        });
    }
    bool recording = false;
    QByteArray trace;
    // what follows a disconnect: a new object and one with a past have to do the same
    void afterwards()
    {
        proxy.listen();
        recording = true;
        trace.clear();
        got.clear();
        auto mark = [this](const char *what) {
            settle();
            QByteArray rx = proxy.last() && up.count(proxy.last()) ? proxy.last()->rx : QByteArray();
            trace += QString("| %1: %2 open, %3 connected, got %4, proxy got %5 | ").arg(what).arg(proxy.open()).arg(rc->remoteConnected()).arg(QString(got), QString(rx)).toUtf8();
            got.clear();
        };
        for (int i = 0; i < 2; ++i) {
            call(RcConnect);
            mark("connect");
            call(RcSend);
            if (proxy.last() && !proxy.last()->closed())
                proxy.last()->send("more");
            mark("up");
            if (i)
                for (auto &e : proxy.ends)
                    e->close();
            else
                call(RcDisconnect);
            mark("end");
        }
        proxy.unlisten();
        for (int i = 0; i < 2; ++i) {
            call(RcConnect);
            mark("refused");
        }
        proxy.listen();
        call(RcConnect);
        mark("connect");
        call(RcDisconnect);
        mark("end");
        recording = false;
    }
    static QByteArray ofANewOne(bool ws)
    {
        static QByteArray t[2];
        if (t[ws].isEmpty()) {
            Ctx c;
            RemoteCallRig r(c, ws, {});
            r.afterwards();
            t[ws] = r.trace;
        }
        return t[ws];
    }
    ~RemoteCallRig()
    {
        delete rc.data();
        w.settle();
    }
    void signal(const char *n)
    {
        int k = seen++;
        names += n;
        names += ' ';
        if (recording && rc) {
            trace += n;
            trace += QString(" %1 %2 [%3] ").arg(int(rc->state())).arg(rc->remoteConnected()).arg(rc->remoteProxyServerName()).toUtf8();
            if (!strcmp(n, "errorOccurred"))
                trace += QByteArray::number(int(rc->error())) + " ";
        }
        if (depth > 3)
            return;
        depth++;
        for (auto &c : calls)
            if (c.first == k)
                call(c.second);
        depth--;
    }
    void call(int c)
    {
        if (!rc)
            return;
        switch (c) {
        case RcConnect:
            rc->connectServer(proxy.url(), uuidOf(3));
            break;
        case RcConnectElsewhere:
            rc->connectServer(QUrl(proxy.ws ? "ws://127.0.0.1:9" : "tcp://127.0.0.1:9"), uuidOf(3));
            break;
        case RcDisconnect:
            rc->disconnectServer();
            break;
        case RcDisconnectConnect:
            rc->disconnectServer();
            rc->connectServer(proxy.url(), uuidOf(3));
            break;
        case RcSend:
            rc->sendData("from within");
            break;
        case RcDelete:
            rc->deleteLater();
            break;
        case RcIgnore:
            rc->ignoreSslErrors();
            break;
        case RcIgnoreList:
            rc->ignoreSslErrors(QList<QSslError>());
            break;
        }
    }
    // answers everything; the registration together with some data
    void settle(bool answer = true)
    {
        for (int i = 0; i < 50; ++i) {
            w.settle();
            bool any = false;
            for (auto &p : proxy.ends) {
                if (p->closed() || up.count(p.get()) || !answer)
                    continue;
                for (const QVariantMap &r : p->requests(false)) {
                    any = true;
                    bool hello = r.value("method").toString() == "RemoteProxy.Hello";
                    int id = r.value("id").toInt();
                    if (hello) {
                        p->send(wire::hello(id));
                    } else {
                        up.insert(p.get());
                        p->rx.clear();
                        p->put(p->encode(wire::registered(id, false)) + p->encode("first"));
                    }
                }
            }
            if (!any)
                return;
        }
        ctx.fail("calls:livelock", "the library keeps sending requests");
    }
    void story()
    {
        call(RcConnect);
        settle();
        for (int i = 0; i < 2; ++i) {
            FakeEnd *e = proxy.last();
            if (e && !e->closed() && up.count(e))
                e->send("more");
            settle();
        }
        for (auto &e : proxy.ends)
            e->close();
        settle();
        call(RcConnect);
        settle();
        call(RcDisconnect);
        settle();
        proxy.unlisten();
        call(RcConnect);
        settle();
        proxy.listen();
    }
    void finish()
    {
        calls.clear();
        if (!rc) {
            settle();
            ctx.step();
            if (proxy.open())
                ctx.fail("calls:deleted", "a connection of the deleted object is open");
            return;
        }
        call(RcDisconnect);
        settle();
        if (rc->remoteConnected() || proxy.open())
            ctx.fail("calls:stop", QString("after disconnectServer: remoteConnected() is %1, %2 connections").arg(rc->remoteConnected()).arg(proxy.open()));
        got.clear();
        call(RcConnect);
        settle();
        ctx.step();
        if (!rc->remoteConnected() || proxy.open() != 1 || got != "first")
            ctx.fail("calls:start", QString("after connectServer: remoteConnected() is %1, %2 connections, data %3").arg(rc->remoteConnected()).arg(proxy.open()).arg(QString(got)));
        if (ctx.failed)
            return;
        proxy.last()->rx.clear();
        if (!rc->sendData("back") || (settle(), proxy.last()->rx != "back"))
            ctx.fail("calls:events", "afterwards nothing can be sent");
        ctx.observe(names.left(200));
        if (ctx.failed)
            return;
        call(RcDisconnect);
        settle();
        afterwards();
        ctx.step();
        ctx.state(trace);
        const QByteArray want = ofANewOne(proxy.ws);
        if (trace != want) {
            int i = 0;
            while (i < want.size() && i < trace.size() && want[i] == trace[i])
                ++i;
            ctx.fail("calls:start", QString("connected again it is not as a new object: behind ...%1: %2 instead of %3").arg(QString(want.mid(std::max(0, i - 60), std::min(60, i))), QString(trace.mid(i, 80)), QString(want.mid(i, 80))));
        }
    }
};

static ListCheck *c23Remote()
{
    return new ListCheck("remote connection, TCP and web socket: every call of the interface from within every signal of a story, pairs of calls from any two signals, and pairs of calls at every stage of a connection",
        [](ListCheck &l, bool thorough) {
            Q_UNUSED(thorough)
            for (int ws = 0; ws < 2; ++ws) {
                int n;
                RemoteCallRig::ofANewOne(ws);
                {
                    Ctx c;
                    RemoteCallRig r(c, ws, {});
                    r.story();
                    n = r.seen + 5;
                }
                QString t = ws ? "ws" : "tcp";
                for (int k = 0; k < n; ++k)
                    for (int c = 1; c < RcCount; ++c) {
                        l.add(QString("%1: %2 from signal %3").arg(t, kRemoteCalls[c]).arg(k), [=](Ctx &x) {
                            RemoteCallRig r(x, ws, {{k, c}});
                            r.story();
                            x.state(r.names);
                            x.outcome(r.names);
                            r.finish();
                        });
                        for (int j = k; j < n; ++j)
                            for (int d = 1; d < RcCount; ++d)
                                l.add(QString("%1: %2 from signal %3, %4 from signal %5").arg(t, kRemoteCalls[c]).arg(k).arg(kRemoteCalls[d]).arg(j), [=](Ctx &x) {
                                    RemoteCallRig r(x, ws, {{k, c}, {j, d}});
                                    r.story();
                                    x.state(r.names);
                                    r.finish();
                                });
                    }
                static const char *stages[] = {"new", "being connected", "connected", "registering", "up", "refused", "lost"};
                for (int stage = 0; stage < 7; ++stage)
                    for (int c = 1; c < RcCount; ++c)
                        for (int d = 0; d < RcCount; ++d)
                            l.add(QString("%1, %2: %3, then %4 at once").arg(t, stages[stage], kRemoteCalls[c], kRemoteCalls[d]), [=](Ctx &x) {
                                RemoteCallRig r(x, ws, {});
                                if (stage == 5)
                                    r.proxy.unlisten();
                                if (stage)
                                    r.call(RcConnect);
                                if (stage > 1)
                                    r.settle(stage == 4 || stage == 6);
                                if (stage == 3 && r.proxy.last()) {
                                    for (const QVariantMap &q : r.proxy.last()->requests(false))
                                        r.proxy.last()->send(wire::hello(q.value("id").toInt()));
                                    r.settle(false);
                                }
                                if (stage == 6) {
                                    r.proxy.last()->close();
                                    r.settle();
                                }
                                r.proxy.listen();
                                r.call(c);
                                r.call(d);
                                r.settle();
                                r.finish();
                            });
            }
        });
}

static CheckReg r23("C23", [] {
    MultiCheck *m = new MultiCheck;
    m->add("socket server", c23Server());
    m->add("remote connection", c23Remote());
    return m;
});

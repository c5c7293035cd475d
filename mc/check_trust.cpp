// C31 which certificates the client library trusts
#include "client.h"

#include <QSslConfiguration>
#include <QFile>
#include <QSslError>
#include <QSslKey>
#include <QTcpServer>
#include <unistd.h>

using namespace remoteproxyclient;
typedef TunnelProxyRemoteConnection Remote;
typedef TunnelProxySocketServer Sockets;

namespace {

struct Kind {
    const char *name;
    const char *text;
    const char *chain;
    bool byAddress, byName; // trusted when the URL has the address or the name
};
const Kind kKinds[] = {
    {"good", "one of the trusted authority", nullptr, true, true},
    {"nameonly", "one of the trusted authority for the name alone", nullptr, false, true},
    {"below", "one of an authority below the trusted one, with the chain", "middle", true, true},
    {"below", "one of an authority below the trusted one, without the chain", nullptr, false, false},
    {"stranger", "one of another authority", nullptr, false, false},
    {"self", "a self-signed one", nullptr, false, false},
    {"expired", "one that is out of date", nullptr, false, false},
    {"future", "one that is not valid yet", nullptr, false, false},
    {"elsewhere", "one for another host", nullptr, false, false},
    {"both", "one for another host that is out of date", nullptr, false, false},
    {"purpose", "one that is for clients only", nullptr, false, false},
    {"fake", "one signed with a host's certificate", "good", false, false},
};
const int kKindCount = sizeof(kKinds) / sizeof(kKinds[0]);

enum Answer { Nothing, All, These, Unrelated, Rest, Other, Once, Before, AnswerCount };
const char *kAnswers[] = {"says nothing", "accepts all errors", "accepts the errors", "accepts errors there are not", "accepts all errors but one", "accepts the errors of another certificate", "accepts all errors the first time", "accepts all errors in advance"};

// One of the library's objects with an application that answers sslErrors in one way.
struct Party {
    World &w;
    bool server, ws;
    int answer;
    std::unique_ptr<Sockets> s;
    std::unique_ptr<Remote> r;
    int asked = 0, connects = 0, handshakeErrors = 0;
    bool accepted = false; // the last time it was asked
    bool empty = false;    // asked about nothing
    QByteArray got;
    QList<QSslError> errors;
    std::vector<TunnelProxySocket *> socks;

    Party(World &world, bool srv, bool webSocket, int a) : w(world), server(srv), ws(webSocket), answer(a)
    {
        if (server) {
            s.reset(new Sockets(uuidOf(1), "server", ws ? Sockets::ConnectionTypeWebSocket : Sockets::ConnectionTypeTcpSocket));
            Sockets *p = s.get();
            QObject::connect(p, &Sockets::sslErrors, p, [this](const QList<QSslError> &e) { ask(e); });
            QObject::connect(p, &Sockets::runningChanged, p, [this](bool on) { connects += on; });
            QObject::connect(p, &Sockets::errorOccurred, p, [this](QAbstractSocket::SocketError e) { handshakeErrors += e == QAbstractSocket::SslHandshakeFailedError; });
            QObject::connect(p, &Sockets::clientConnected, p, [this, p](TunnelProxySocket *t) {
                socks.push_back(t);
                QObject::connect(t, &TunnelProxySocket::dataReceived, p, [this](const QByteArray &d) { got += d; });
            });
            QObject::connect(p, &Sockets::clientDisconnected, p, [this](TunnelProxySocket *t) { socks.erase(std::remove(socks.begin(), socks.end(), t), socks.end()); });
        } else {
            r.reset(new Remote(uuidOf(11), "client", ws ? Remote::ConnectionTypeWebSocket : Remote::ConnectionTypeTcpSocket));
            Remote *q = r.get();
            QObject::connect(q, &Remote::sslErrors, q, [this](const QList<QSslError> &e) { ask(e); });
            QObject::connect(q, &Remote::remoteConnectedChanged, q, [this](bool on) { connects += on; });
            QObject::connect(q, &Remote::errorOccurred, q, [this](QAbstractSocket::SocketError e) { handshakeErrors += e == QAbstractSocket::SslHandshakeFailedError; });
            QObject::connect(q, &Remote::dataReady, q, [this](const QByteArray &d) { got += d; });
        }
    }
    void accept()
    {
        if (server)
            s->ignoreSslErrors();
        else
            r->ignoreSslErrors();
    }
    void accept(const QList<QSslError> &e)
    {
        if (server)
            s->ignoreSslErrors(e);
        else
            r->ignoreSslErrors(e);
    }
    void ask(const QList<QSslError> &e)
    {
        asked++;
        errors = e;
        empty = empty || e.isEmpty();
        accepted = false;
        switch (answer) {
        case All:
            accept();
            accepted = true;
            break;
        case Once:
            if (asked == 1) {
                accept();
                accepted = true;
            }
            break;
        case These:
            accept(e);
            accepted = true;
            break;
        case Unrelated:
            accept({QSslError(QSslError::CertificateRevoked, e.value(0).certificate()), QSslError(QSslError::NoPeerCertificate)});
            break;
        case Other: {
            QList<QSslCertificate> c = QSslCertificate::fromPath(QString(MC_DIR) + "/certs/trust/middle.pem");
            QList<QSslError> l;
            for (const QSslError &x : e)
                l.append(QSslError(x.error(), c.value(0)));
            accept(l);
            break;
        }
        case Rest: {
            QList<QSslError> l;
            for (const QSslError &x : e)
                if (!(x == e.value(0)))
                    l.append(x);
            accept(l);
            break;
        }
        case Before:
            accepted = true;
            break;
        default:
            break;
        }
    }
    void start(const QUrl &url)
    {
        if (server)
            s->startServer(url);
        else
            r->connectServer(url, uuidOf(1));
        if (answer == Before)
            accept();
    }
    bool up() const { return server ? s->running() : r->remoteConnected(); }
};

struct Trust {
    Ctx &ctx;
    World w;
    bool named = false; // names may have to be looked up
    ServerOptions o;
    Trust(Ctx &c) : ctx(c), w(c)
    {
        QSslConfiguration conf = QSslConfiguration::defaultConfiguration();
        conf.setCaCertificates(QSslCertificate::fromPath(QString(MC_DIR) + "/certs/trust/ca.pem"));
        QSslConfiguration::setDefaultConfiguration(conf);
        sim::setNames(true);
    }
    void proxy(int kind, bool tls = true)
    {
        o.tls = tls;
        o.cert = QString("trust/%1.pem").arg(kKinds[kind].name);
        o.key = QString("trust/%1.key").arg(kKinds[kind].name);
        o.chain = kKinds[kind].chain ? QString("trust/%1.pem").arg(kKinds[kind].chain) : QString();
        w.start(o);
    }
    QUrl url(bool ws, bool name, bool tls = true) const
    {
        return QUrl(QString("%1://%2:%3").arg(ws ? tls ? "wss" : "ws" : tls ? "ssl" : "tcp", name ? "proxy.test" : "127.0.0.1").arg(ws ? w.wsPort() : w.tcpPort()));
    }
    // names are looked up in a thread of Qt's
    void rest(Party &p)
    {
        for (int i = 0; i < 5000; ++i) {
            w.settle();
            if (!named)
                return;
            if (p.server ? p.s->state() != Sockets::StateHostLookup : p.r->state() != Remote::StateHostLookup && p.r->state() != Remote::StateConnecting)
                return;
            usleep(1000);
        }
        ctx.fail("trust:name", "a name is still being looked up");
    }
    void pass(Party &p, int ms)
    {
        for (int t = 0; t < ms; t += 500) {
            w.advance(500);
            rest(p);
        }
    }
    int registered()
    {
        bool ok = false;
        QVariantMap m = w.monitor(true, &ok);
        if (!ok)
            ctx.fail("setup", "no report");
        QVariantMap t = m.value("tunnelProxyStatistic").toMap();
        return t.value("totalClientCount").toInt();
    }
};

bool trusted(int kind, bool named) { return named ? kKinds[kind].byName : kKinds[kind].byAddress; }


// The other end of the tunnel, over the local socket: no certificates there.
struct Mate {
    Trust &t;
    Conn c;
    bool client; // or a server
    quint16 addr = 0;
    explicit Mate(Trust &trust, bool isClient) : t(trust), c(trust.w, Unix), client(isClient)
    {
        if (!client)
            c.registerServer(uuidOf(1));
    }
    // whether a client gets through, and data both ways
    void talk(Party &p, bool expected, const QString &when)
    {
        static int serial = 0;
        if (client && p.ws)
            return; // see the finding ws:server-role: its tunnels do not work in the first place
        if (client) {
            Conn d(t.w, Unix);
            bool in = d.registerClient(uuidOf(20 + ++serial % 20), uuidOf(1));
            t.rest(p);
            if (in != expected)
                t.ctx.fail("trust:served", when + (in ? ": a client gets through to the server" : ": a client does not get through to the server"));
            if (!in || t.ctx.failed) {
                d.close();
                t.rest(p);
                return;
            }
            d.take();
            p.got.clear();
            d.sendRaw("to the server");
            t.rest(p);
            if (p.socks.empty()) {
                t.ctx.fail("trust:data", when + ": the server does not know of its client");
                return;
            }
            p.socks.back()->writeData("to the client");
            t.rest(p);
            if (p.got != "to the server" || d.peer->rx != "to the client")
                t.ctx.fail("trust:data", when + ": got '" + p.got + "' and '" + d.peer->rx + "'");
            d.close();
            t.rest(p);
            return;
        }
        quint16 a = 0;
        int joined = 0;
        for (const Event &e : c.take())
            if (e.kind == Event::Notification && e.method.endsWith("ClientConnected")) {
                joined++;
                a = quint16(e.params.value("socketAddress").toUInt());
            } else if (e.kind == Event::Data) {
                joined += 100;
            }
        if (joined != (expected ? 1 : 0)) {
            t.ctx.fail("trust:served", when + QString(": the server saw %1 clients").arg(joined));
            return;
        }
        if (!expected)
            return;
        p.got.clear();
        p.r->sendData("to the server");
        c.sendFrame(a, "to the client");
        t.rest(p);
        QByteArray got;
        for (const Event &e : c.take())
            if (e.kind == Event::Data && e.addr == a)
                got += e.data;
        if (got != "to the server" || p.got != "to the client")
            t.ctx.fail("trust:data", when + ": got '" + got + "' and '" + p.got + "'");
    }
};

// What has to hold once one attempt has come to rest.
void judge(Trust &t, Party &p, int kind, bool named, int askedBefore, const QString &when)
{
    Ctx &ctx = t.ctx;
    bool good = trusted(kind, named);
    int asked = p.asked - askedBefore;
    ctx.step();
    if (p.empty)
        ctx.fail("trust:errors", when + ": asked about no error at all");
    if (good && asked)
        ctx.fail("trust:asked", when + QString(": the certificate is fine, but the application is asked about '%1'").arg(p.errors.value(0).errorString()));
    if (!good && !asked)
        ctx.fail("trust:unasked", when + ": the application is not asked");
    bool up = good || p.accepted;
    if (p.up() != up)
        ctx.fail(up ? "trust:refused" : "trust:trusted", when + (up ? ": it does not get connected" : ": it gets connected"));
    if (!up && p.connects)
        ctx.fail("trust:trusted", when + ": it was connected");
    if (!up && !p.handshakeErrors)
        ctx.fail("trust:silent", when + ": the application is not told of the failure");
    QVariantMap m = t.w.monitor(true).value("tunnelProxyStatistic").toMap();
    int servers = m.value("serverConnectionsCount").toInt() - !p.server, clients = m.value("clientConnectionsCount").toInt();
    if ((p.server ? servers : clients) != up || (p.server ? clients : servers) != 0)
        ctx.fail("trust:registered", when + QString(": the proxy has %1 further servers, %2 clients").arg(servers).arg(clients));
    QStringList names;
    for (const QSslError &e : p.errors)
        names << QString::number(e.error());
    ctx.outcome(QString("%1/%2/%3").arg(up).arg(asked).arg(names.join(",")).toUtf8());
    ctx.observe(QString("%1/%2/%3").arg(up).arg(asked).arg(names.join(",")).toUtf8());
    ctx.state(QString("%1/%2/%3/%4").arg(kind).arg(named).arg(p.answer).arg(up).toUtf8());
}

QString partyName(bool server, bool ws) { return QString(server ? "server" : "client") + (ws ? ", web socket" : ", TCP"); }

// every certificate, way and answer against the proxy
ListCheck *once()
{
    return new ListCheck("the proxy with each of 12 certificates; client and server objects of the library, on TCP and web sockets with TLS, with its address and its name; the application answers the errors in each of 8 ways; a tunnel with another party over the local socket; then three more attempts (the server's own, the client's by connecting again)", [](ListCheck &l, bool thorough) {
        for (int server = 0; server < 2; ++server)
            for (int ws = 0; ws < 2; ++ws)
                for (int named = 0; named < 2; ++named)
                    for (int kind = 0; kind < kKindCount; ++kind)
                        for (int answer = 0; answer < AnswerCount; ++answer)
                            l.add(QString("%1, %2: %3, the application %4").arg(partyName(server, ws), named ? "by name" : "by address", kKinds[kind].text, kAnswers[answer]), [=](Ctx &ctx) {
                                Trust t(ctx);
                                t.named = named;
                                t.proxy(kind);
                                Party p(t.w, server, ws, answer);
                                Mate mate(t, server);
                                p.start(t.url(ws, named));
                                t.rest(p);
                                judge(t, p, kind, named, 0, "at first");
                                if (!ctx.failed)
                                    mate.talk(p, trusted(kind, named) || p.accepted, "at first");
                                int more = thorough ? 6 : 3;
                                for (int i = 0; i < more && !ctx.failed; ++i) {
                                    QString when = QString("attempt %1").arg(i + 2);
                                    bool was = p.up();
                                    int asked = p.asked;
                                    p.connects = was ? p.connects : 0;
                                    p.handshakeErrors = 0;
                                    if (!server) {
                                        if (was) {
                                            p.r->disconnectServer();
                                            t.rest(p);
                                            mate.c.take();
                                        }
                                        p.connects = 0;
                                        p.start(t.url(ws, named));
                                        t.rest(p);
                                    } else if (was) {
                                        // the proxy goes and comes back, the tunnel of the other party with it
                                        t.w.stop();
                                        t.rest(p);
                                        p.connects = 0;
                                        t.pass(p, 6000);
                                        p.asked = asked;
                                        p.accepted = false;
                                        p.handshakeErrors = 0;
                                        t.proxy(kind);
                                        t.pass(p, 6000);
                                        // asked once or, until refused, with each attempt
                                    } else {
                                        t.pass(p, 6000);
                                    }
                                    // after being restarted nobody has accepted anything "in advance"
                                    if (server && answer == Before)
                                        p.accepted = false;
                                    judge(t, p, kind, named, asked, when);
                                    if (!ctx.failed && !(server && was))
                                        mate.talk(p, trusted(kind, named) || p.accepted, when);
                                }
                            });
    });
}

// the proxy changes its certificate
ListCheck *changes()
{
    return new ListCheck("every sequence of three of four certificates (trusted, of another authority, out of date, self-signed), the proxy restarted in between, and every answer; server and client, on both transports", [](ListCheck &l, bool) {
        static const int kinds[] = {0, 4, 6, 5};
        for (int server = 0; server < 2; ++server)
            for (int ws = 0; ws < 2; ++ws)
                for (int seq = 0; seq < 64; ++seq)
                    for (int answer = 0; answer < AnswerCount; ++answer)
                        if (answer != Before)
                            l.add(QString("%1: certificates %2, %3, %4, the application %5").arg(partyName(server, ws)).arg(seq % 4).arg(seq / 4 % 4).arg(seq / 16).arg(kAnswers[answer]), [=](Ctx &ctx) {
                                Trust t(ctx);
                                Party p(t.w, server, ws, answer);
                                for (int i = 0, s = seq; i < 3 && !ctx.failed; ++i, s /= 4) {
                                    int kind = kinds[s % 4];
                                    if (i) {
                                        t.w.stop();
                                        t.rest(p);
                                        t.pass(p, 6000);
                                        if (p.up())
                                            ctx.fail("trust:up", "connected to a proxy that is gone");
                                    }
                                    int asked = p.asked;
                                    p.connects = 0;
                                    p.handshakeErrors = 0;
                                    p.accepted = false;
                                    t.proxy(kind);
                                    Mate mate(t, server);
                                    if (!server || !i) {
                                        p.start(t.url(ws, false));
                                        t.rest(p);
                                    } else {
                                        t.pass(p, 6000);
                                    }
                                    QString when = QString("certificate %1").arg(i + 1);
                                    judge(t, p, kind, false, asked, when);
                                    if (!ctx.failed)
                                        mate.talk(p, trusted(kind, false) || p.accepted, when);
                                }
                            });
    });
}

// An impostor: takes what it is told, with a certificate of its own.
struct Impostor : QTcpServer {
    QByteArray cert;
    QByteArray first; // what it says at once
    QByteArray heard;
    int accepted = 0, from = 0; // what connections before that hear is of another attempt
    QList<QSslCertificate> chain;
    QSslKey key;
    explicit Impostor(int kind)
    {
        QString d = QString(MC_DIR) + "/certs/trust/";
        chain = QSslCertificate::fromPath(d + kKinds[kind].name + ".pem");
        if (kKinds[kind].chain)
            chain += QSslCertificate::fromPath(d + kKinds[kind].chain + ".pem");
        QFile f(d + kKinds[kind].name + ".key");
        if (f.open(QIODevice::ReadOnly))
            key = QSslKey(&f, QSsl::Rsa);
    }
    void incomingConnection(qintptr fd) override
    {
        QSslSocket *s = new QSslSocket(this);
        s->setSocketDescriptor(fd);
        QSslConfiguration c = s->sslConfiguration();
        c.setPeerVerifyMode(QSslSocket::VerifyNone);
        c.setLocalCertificateChain(chain);
        c.setPrivateKey(key);
        s->setSslConfiguration(c);
        int n = accepted++;
        QObject::connect(s, &QSslSocket::encrypted, this, [this, s] {
            s->write(first);
        });
        QObject::connect(s, &QSslSocket::readyRead, this, [this, s, n] {
            QByteArray d = s->readAll();
            if (n >= from)
                heard += d;
        });
        QObject::connect(s, &QSslSocket::disconnected, s, &QObject::deleteLater);
        s->startServerEncryption();
    }
};

QByteArray says(int what, bool server)
{
    switch (what) {
    case 0: return QByteArray();
    case 1: return wire::hello(0);
    case 2: return wire::hello(0) + wire::registered(1, server);
    case 3: return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n";
    case 4: return QByteArray("\x15\x03\x03\x00\x02\x02\x28", 7);
    case 5: return QByteArray("\x15\x03\x03\x00\x02\x01\x00", 7);
    case 6: return pattern(700, 3);
    }
    return QByteArray("\x16\x03\x03\x00\x04\x0e\x00\x00\x00", 9);
}
const char *kSays[] = {"nothing", "a reply to Hello", "replies to Hello and the registration", "an HTTP reply", "a TLS alert", "the end of TLS", "something", "a TLS handshake message out of place"};
const int kSayCount = 8;

ListCheck *impostors()
{
    return new ListCheck("an impostor that speaks TLS with each of the 12 certificates and records what it is told, saying at once nothing, or all replies the library waits for; every answer; two attempts", [](ListCheck &l, bool) {
        for (int server = 0; server < 2; ++server)
            for (int ws = 0; ws < 2; ++ws)
                for (int kind = 0; kind < kKindCount; ++kind)
                    for (int what = 0; what < 4; ++what)
                        for (int answer = 0; answer < AnswerCount; ++answer)
                            l.add(QString("%1: an impostor with %2, saying %3, the application %4").arg(partyName(server, ws), kKinds[kind].text, kSays[what], kAnswers[answer]), [=](Ctx &ctx) {
                                Trust t(ctx);
                                Impostor imp(kind);
                                imp.first = says(what, server);
                                if (!imp.listen(QHostAddress::LocalHost, ws ? World::kWsPort : World::kTcpPort)) {
                                    ctx.fail("setup", "cannot listen");
                                    return;
                                }
                                Party p(t.w, server, ws, answer);
                                for (int i = 0; i < 2 && !ctx.failed; ++i) {
                                    int asked = p.asked;
                                    p.accepted = false;
                                    p.connects = 0;
                                    imp.heard.clear();
                                    imp.from = imp.accepted;
                                    if (!server || !i) {
                                        p.start(t.url(ws, false));
                                        t.rest(p);
                                    } else {
                                        t.pass(p, 6000);
                                    }
                                    // the server's own next attempt is not accepted in advance; there is none while it is connected
                                    bool again = server && i;
                                    ctx.step();
                                    bool good = trusted(kind, false), fine = good || p.accepted;
                                    if (again && good)
                                        break;
                                    if (again && p.asked == asked)
                                        break; // connected, waiting for a reply
                                    if (again && answer == Before)
                                        fine = false;
                                    if (good && p.asked != asked)
                                        ctx.fail("trust:asked", "the certificate is fine, but the application is asked");
                                    if (!good && p.asked == asked)
                                        ctx.fail("trust:unasked", "the application is not asked");
                                    if (!fine && !imp.heard.isEmpty())
                                        ctx.fail("trust:told", QString("attempt %1: it tells the impostor: %2").arg(i + 1).arg(QString::fromLatin1(imp.heard.left(100))));
                                    if (!fine && (p.up() || p.connects))
                                        ctx.fail("trust:trusted", QString("attempt %1: it gets connected").arg(i + 1));
                                    if (fine && imp.heard.isEmpty())
                                        ctx.fail("trust:refused", QString("attempt %1: it says nothing").arg(i + 1));
                                    ctx.observe(QByteArray::number(imp.heard.size()) + "/" + QByteArray::number(fine));
                                }
                            });
    });
}

// no TLS at one end
ListCheck *clear()
{
    return new ListCheck("URLs that ask for TLS and a proxy without it that says each of 8 things and closes or not; URLs that do not and a proxy with TLS; two attempts", [](ListCheck &l, bool) {
        for (int server = 0; server < 2; ++server)
            for (int ws = 0; ws < 2; ++ws)
                for (int what = 0; what < kSayCount; ++what)
                    for (int when = 0; when < 2; ++when)
                        for (int close = 0; close < 2; ++close)
                            for (int answer = 0; answer < AnswerCount; answer += answer == All ? Before - All : 1)
                                l.add(QString("%1: no TLS at the other end, it says %2 %3%4, the application %5").arg(partyName(server, ws), kSays[what], when ? "after the first message" : "at once", close ? " and closes" : "", kAnswers[answer]), [=](Ctx &ctx) {
                                    Trust t(ctx);
                                    FakeProxy f(t.w, ws ? World::kWsPort : World::kTcpPort, false);
                                    Party p(t.w, server, ws, answer);
                                    size_t seen = 0;
                                    QByteArray heard;
                                    t.w.pumps.push_back([&] {
                                        if (seen == f.ends.size() || (when && f.ends[seen]->rx.isEmpty()))
                                            return false;
                                        f.ends[seen]->put(says(what, server));
                                        if (close)
                                            f.ends[seen]->close();
                                        seen++;
                                        return true;
                                    });
                                    for (int i = 0; i < 2 && !ctx.failed; ++i) {
                                        if (!server || !i)
                                            p.start(t.url(ws, false));
                                        t.rest(p);
                                        t.pass(p, 6000);
                                        ctx.step();
                                        for (auto &e : f.ends) {
                                            heard = e->rx;
                                            if (!heard.isEmpty() && heard[0] != '\x16')
                                                ctx.fail("trust:clear", "the first thing sent is no TLS handshake: " + hex(heard));
                                            for (const char *w : {"RemoteProxy", "Hello", "GET ", "method", "Upgrade", "server\"", "client\""})
                                                if (heard.contains(w))
                                                    ctx.fail("trust:clear", QString("'%1' is sent in the clear").arg(w));
                                        }
                                        if (p.up() || p.connects)
                                            ctx.fail("trust:trusted", "it gets connected without TLS");
                                        if (f.ends.empty())
                                            ctx.fail("setup", "no connection");
                                    }
                                    ctx.observe(QByteArray::number(p.asked) + "/" + QByteArray::number((int)f.ends.size()));
                                });
        for (int server = 0; server < 2; ++server)
            for (int ws = 0; ws < 2; ++ws)
                for (int kind = 0; kind < kKindCount; ++kind)
                    for (int answer = 0; answer < AnswerCount; answer += answer == All ? Before - All : 1)
                        l.add(QString("%1 without TLS, the proxy with %2, the application %3").arg(partyName(server, ws), kKinds[kind].text, kAnswers[answer]), [=](Ctx &ctx) {
                            Trust t(ctx);
                            t.proxy(kind);
                            Party p(t.w, server, ws, answer);
                            for (int i = 0; i < 2 && !ctx.failed; ++i) {
                                if (!server || !i)
                                    p.start(t.url(ws, false, false));
                                t.rest(p);
                                t.pass(p, 12000);
                                ctx.step();
                                if (p.up() || p.connects)
                                    ctx.fail("trust:trusted", "it gets connected without TLS");
                                QVariantMap m = t.w.monitor(true).value("tunnelProxyStatistic").toMap();
                                if (m.value("serverConnectionsCount").toInt() || m.value("clientConnectionsCount").toInt())
                                    ctx.fail("trust:registered", "the proxy has registered it");
                            }
                        });
    });
}

} // namespace

static CheckReg r31("C31", [] {
    MultiCheck *m = new MultiCheck;
    m->add("certificates", once());
    m->add("changing certificates", changes());
    m->add("impostors", impostors());
    m->add("in the clear", clear());
    return m;
});

#pragma once
#include "dispatcher.h"
#include "runner.h"
#include "simnet.h"

#include <QByteArray>
#include <QHostAddress>
#include <QJsonDocument>
#include <QJsonObject>
#include <QLocalSocket>
#include <QMap>
#include <QObject>
#include <QSslSocket>
#include <QUuid>
#include <QVariantMap>
#include <deque>
#include <functional>
#include <memory>
#include <vector>

// ---- independent reference codecs (never the code under test) ---------------------------------
namespace ref {
QByteArray slipEncode(const QByteArray &raw);               // escaped + END
QByteArray frame(quint16 addr, const QByteArray &payload);  // slipEncode(BE16 addr + payload)
// Decodes as many complete frames as there are; rest stays in buf. Invalid frames give valid=false.
struct Frame {
    bool valid;
    bool shortFrame;
    quint16 addr;
    QByteArray data;
};
std::vector<Frame> slipDecode(QByteArray &buf);
QByteArray json(const QVariantMap &m);
QByteArray request(int id, const QString &method, const QVariantMap &params = QVariantMap());
} // namespace ref

// ---- byte-level endpoints ----------------------------------------------------------------------
enum Transport { Tcp, Unix, Ws, Tls, Wss };
const char *transportName(Transport t);

class Link
{
public:
    virtual ~Link() {}
    virtual void write(const QByteArray &d) = 0;
    virtual bool pump() = 0; // moves what it can; true if anything moved
    virtual void shutdownWrite() = 0;
    virtual void close() = 0;
    virtual bool opened() const { return true; }
    virtual qint64 unsent() const { return 0; }
    QByteArray rx;
    bool eof = false;
    bool stalled = false; // does not read
};

class RawLink : public Link
{
public:
    explicit RawLink(int fd) : m_fd(fd) {}
    ~RawLink() override { close(); }
    void write(const QByteArray &d) override;
    bool pump() override;
    void shutdownWrite() override;
    void close() override;
    qint64 unsent() const override { return m_out.size(); }
    int fd() const { return m_fd; }

private:
    int m_fd;
    QByteArray m_out;
};

class TlsLink : public Link
{
public:
    explicit TlsLink(quint16 port);
    ~TlsLink() override;
    void write(const QByteArray &d) override;
    bool pump() override;
    void shutdownWrite() override;
    void close() override;
    bool opened() const override { return m_socket && m_socket->isEncrypted(); }

private:
    QSslSocket *m_socket = nullptr;
    QByteArray m_out;
};

// One connection of the harness to the proxy, speaking the transport's outer framing.
class Peer
{
public:
    Peer(Transport t, Link *l) : transport(t), link(l) {}
    Transport transport;
    QHostAddress host; // as the proxy sees it
    std::unique_ptr<Link> link;
    bool wsReady = false;
    bool wsClosed = false;
    int wsCloseCode = 0;
    QByteArray rx; // payload bytes received, in order
    qint64 sentBytes = 0, gotBytes = 0; // payload, without web socket and TLS framing

    void send(const QByteArray &payload); // stream: bytes; websocket: one text message
    void sendWs(int opcode, const QByteArray &payload, bool fin = true);
    bool pump();
    bool closed() const { return link->eof || wsClosed; }
    QByteArray take()
    {
        QByteArray r = rx;
        rx.clear();
        return r;
    }

private:
    QByteArray m_ws;
    void parseWs();
};

// ---- what a peer sees, decoded -----------------------------------------------------------------
struct Event {
    enum Kind { Response, Notification, Data, Garbage } kind;
    int id = 0;
    bool ok = false;       // status == success
    QString error;         // tunnelProxyError, if any
    QString method;        // notification name
    QVariantMap params;
    quint16 addr = 0;      // Data on a server connection
    QByteArray data;
    QByteArray canonical() const;
};

struct ServerOptions {
    bool tls = false;
    int inactiveTimeout = 8000;
    bool logEngine = false;
    bool smallBuffers = false; // a few kB per connection in the system, the rest waits in the proxy
    QString name = "mc proxy";
    int portShift = 0;         // other ports
    QString tag;               // other socket files
    bool ipv6 = false;         // listens on IPv6, everybody comes from there
    QString cert = "cert.pem", key = "key.pem", chain; // in certs/
};

// ---- the proxy under test ------------------------------------------------------------------------
namespace remoteproxy {
class Engine;
class ProxyConfiguration;
}
class World
{
public:
    explicit World(Ctx &c) : ctx(c) {}
    ~World();

    Ctx &ctx;
    ServerOptions opts;
    QString dir;
    std::vector<Peer *> peers;
    std::vector<std::function<bool()>> pumps; // further ends of the harness; true if anything moved

    bool start(const ServerOptions &o = ServerOptions());
    void stop();
    // a loaded configuration; opts becomes o, open() and monitor() go there
    remoteproxy::ProxyConfiguration *configure(const ServerOptions &o);
    QString unixPath() const { return dir + "/tunnel" + opts.tag + ".sock"; }
    QString monitorPath() const { return dir + "/monitor" + opts.tag + ".sock"; }
    quint16 tcpPort() const { return quint16(kTcpPort + opts.portShift); }
    quint16 wsPort() const { return quint16(kWsPort + opts.portShift); }
    static const quint16 kTcpPort = 2213;
    static const quint16 kWsPort = 2212;

    Peer *open(Transport t, bool settleNow = true);
    Peer *adopt(Transport t, Link *l, bool settleNow = true); // a connection made by the caller
    void release(Peer *p); // closes and forgets
    void settle();
    void advance(qint64 ms);
    bool quiet = true; // false once the system did not come to rest

    QVariantMap monitor(bool printAll, bool *ok = nullptr); // one refresh over the real monitor socket

private:
    int m_hosts = 0;
};

// ---- one protocol endpoint of the harness --------------------------------------------------------
class Conn
{
public:
    enum Mode { Json, Slip, Raw };
    Conn(World &w, Transport t, bool settleNow = true) : world(w), peer(w.open(t, settleNow)) {}
    Conn(World &w, Peer *p) : world(w), peer(p) {}
    World &world;
    Peer *peer;
    Mode mode = Json;
    int nextId = 1;
    QByteArray buf;
    int garbage = 0;
    std::vector<Event> pending; // decoded, not yet taken

    bool closed() const { return peer->closed(); }
    void sendRaw(const QByteArray &d) { peer->send(d); }
    QByteArray encode(int id, const QString &method, const QVariantMap &params = QVariantMap());
    int request(const QString &method, const QVariantMap &params = QVariantMap());
    void sendFrame(quint16 addr, const QByteArray &payload) { peer->send(ref::frame(addr, payload)); }
    // decodes what has arrived; call after settle()
    std::vector<Event> take();
    void close();
    bool registerServer(const QUuid &u, const QString &name = "server");
    bool registerClient(const QUuid &u, const QUuid &server, const QString &name = "client");
};

QUuid uuidOf(int i);
QByteArray hex(const QByteArray &d, int max = 48);
QByteArray pattern(int size, int seed); // position-dependent bytes, every value occurs

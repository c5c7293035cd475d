#include "world.h"

#include "engine.h"
#include "proxyconfiguration.h"

#include <QCoreApplication>
#include <QDir>
#include <QFile>
#include <QSslConfiguration>
#include <errno.h>
#include <sys/socket.h>
#include <unistd.h>

namespace ref {

QByteArray slipEncode(const QByteArray &raw)
{
    QByteArray o;
    o.reserve(raw.size() + 8);
    for (int i = 0; i < raw.size(); ++i) {
        unsigned char b = raw[i];
        if (b == 0xC0)
            o.append("\xDB\xDC", 2);
        else if (b == 0xDB)
            o.append("\xDB\xDD", 2);
        else
            o.append((char)b);
    }
    o.append('\xC0');
    return o;
}

QByteArray frame(quint16 addr, const QByteArray &payload)
{
    QByteArray raw;
    raw.append((char)(addr >> 8));
    raw.append((char)(addr & 0xff));
    raw.append(payload);
    return slipEncode(raw);
}

std::vector<Frame> slipDecode(QByteArray &buf)
{
    std::vector<Frame> out;
    int from = 0;
    for (;;) {
        int end = buf.indexOf('\xC0', from);
        if (end < 0)
            break;
        QByteArray enc = buf.mid(from, end - from);
        from = end + 1;
        if (enc.isEmpty())
            continue;
        Frame f;
        f.valid = true;
        f.shortFrame = false;
        f.addr = 0;
        QByteArray raw;
        for (int i = 0; i < enc.size(); ++i) {
            unsigned char b = enc[i];
            if (b != 0xDB) {
                raw.append((char)b);
                continue;
            }
            unsigned char n = i + 1 < enc.size() ? (unsigned char)enc[i + 1] : 0;
            if (n == 0xDC)
                raw.append('\xC0');
            else if (n == 0xDD)
                raw.append('\xDB');
            else
                f.valid = false;
            ++i;
        }
        if (raw.size() < 2) {
            f.shortFrame = true;
        } else {
            f.addr = quint16(((unsigned char)raw[0] << 8) | (unsigned char)raw[1]);
            f.data = raw.mid(2);
        }
        out.push_back(f);
    }
    buf = buf.mid(from);
    return out;
}

QByteArray json(const QVariantMap &m) { return QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact) + "\n"; }

QByteArray request(int id, const QString &method, const QVariantMap &params)
{
    QVariantMap m;
    m["id"] = id;
    m["method"] = method;
    if (!params.isEmpty())
        m["params"] = params;
    return json(m);
}

} // namespace ref

const char *transportName(Transport t)
{
    static const char *n[] = {"tcp", "unix", "ws", "tls", "wss"};
    return n[t];
}

// ---------------------------------------------------------------------------------------------
void RawLink::write(const QByteArray &d)
{
    m_out.append(d);
    pump();
}

bool RawLink::pump()
{
    if (m_fd < 0)
        return false;
    bool moved = false;
    while (!m_out.isEmpty()) {
        ssize_t n = ::send(m_fd, m_out.constData(), m_out.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
        if (n <= 0) {
            if (n < 0 && errno != EAGAIN)
                m_out.clear();
            break;
        }
        m_out.remove(0, (int)n);
        moved = true;
    }
    if (stalled || eof)
        return moved;
    char buf[65536];
    for (;;) {
        ssize_t n = ::recv(m_fd, buf, sizeof(buf), MSG_DONTWAIT);
        if (n > 0) {
            rx.append(buf, (int)n);
            moved = true;
            continue;
        }
        if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) {
            eof = true;
            moved = true;
        }
        break;
    }
    return moved;
}

void RawLink::shutdownWrite()
{
    if (m_fd >= 0)
        ::shutdown(m_fd, SHUT_WR);
}

void RawLink::close()
{
    if (m_fd >= 0)
        ::close(m_fd);
    m_fd = -1;
    eof = true;
}

TlsLink::TlsLink(quint16 port)
{
    m_socket = new QSslSocket;
    QSslConfiguration c = m_socket->sslConfiguration();
    c.setCaCertificates(QList<QSslCertificate>());
    c.setPeerVerifyMode(QSslSocket::VerifyNone);
    m_socket->setSslConfiguration(c);
    m_socket->ignoreSslErrors();
    m_socket->connectToHostEncrypted("127.0.0.1", port);
}

TlsLink::~TlsLink() { close(); }

void TlsLink::write(const QByteArray &d)
{
    m_out.append(d);
    pump();
}

bool TlsLink::pump()
{
    if (!m_socket)
        return false;
    bool moved = false;
    if (!m_out.isEmpty() && m_socket->isEncrypted()) {
        m_socket->write(m_out);
        m_out.clear();
        moved = true;
    }
    if (stalled)
        return moved;
    QByteArray d = m_socket->readAll();
    if (!d.isEmpty()) {
        rx.append(d);
        moved = true;
    }
    if (!eof && m_socket->state() == QAbstractSocket::UnconnectedState) {
        eof = true;
        moved = true;
    }
    return moved;
}

void TlsLink::shutdownWrite()
{
    if (m_socket)
        m_socket->disconnectFromHost();
}

void TlsLink::close()
{
    if (m_socket) {
        m_socket->abort();
        delete m_socket;
        m_socket = nullptr;
    }
    eof = true;
}

// ---------------------------------------------------------------------------------------------
void Peer::sendWs(int opcode, const QByteArray &payload, bool fin)
{
    QByteArray f;
    f.append((char)((fin ? 0x80 : 0) | opcode));
    int n = payload.size();
    if (n < 126) {
        f.append((char)(0x80 | n));
    } else if (n < 65536) {
        f.append((char)(0x80 | 126));
        f.append((char)(n >> 8));
        f.append((char)n);
    } else {
        f.append((char)(0x80 | 127));
        for (int i = 7; i >= 0; --i)
            f.append((char)((quint64)n >> (8 * i)));
    }
    const unsigned char mask[4] = {0x11, 0x22, 0x33, 0x44};
    f.append((const char *)mask, 4);
    for (int i = 0; i < n; ++i)
        f.append((char)(payload[i] ^ mask[i & 3]));
    link->write(f);
}

void Peer::send(const QByteArray &payload)
{
    sentBytes += payload.size();
    if (transport == Ws || transport == Wss)
        sendWs(1, payload);
    else
        link->write(payload);
}

void Peer::parseWs()
{
    if (!wsReady) {
        int p = m_ws.indexOf("\r\n\r\n");
        if (p < 0)
            return;
        if (!m_ws.startsWith("HTTP/1.1 101")) {
            wsClosed = true;
            return;
        }
        m_ws = m_ws.mid(p + 4);
        wsReady = true;
    }
    for (;;) {
        if (m_ws.size() < 2)
            return;
        int op = m_ws[0] & 0x0f;
        quint64 n = (unsigned char)m_ws[1] & 0x7f;
        int h = 2;
        if (n == 126) {
            if (m_ws.size() < 4)
                return;
            n = ((unsigned char)m_ws[2] << 8) | (unsigned char)m_ws[3];
            h = 4;
        } else if (n == 127) {
            if (m_ws.size() < 10)
                return;
            n = 0;
            for (int i = 0; i < 8; ++i)
                n = (n << 8) | (unsigned char)m_ws[2 + i];
            h = 10;
        }
        if ((quint64)m_ws.size() < h + n)
            return;
        QByteArray payload = m_ws.mid(h, (int)n);
        m_ws = m_ws.mid(h + (int)n);
        if (op == 8) {
            if (payload.size() >= 2)
                wsCloseCode = ((unsigned char)payload[0] << 8) | (unsigned char)payload[1];
            if (!wsClosed)
                sendWs(8, payload.left(2));
            wsClosed = true;
        } else if (op == 9) {
            sendWs(10, payload);
        } else if (op == 0 || op == 1 || op == 2) {
            rx.append(payload);
            gotBytes += payload.size();
        }
    }
}

bool Peer::pump()
{
    bool moved = link->pump();
    if (link->rx.isEmpty())
        return moved;
    if (transport == Ws || transport == Wss) {
        m_ws.append(link->rx);
        link->rx.clear();
        parseWs();
    } else {
        rx.append(link->rx);
        gotBytes += link->rx.size();
        link->rx.clear();
    }
    return moved;
}

// ---------------------------------------------------------------------------------------------
QByteArray Event::canonical() const
{
    switch (kind) {
    case Response:
        return "resp:" + QByteArray::number(id) + ":" + (ok ? "ok" : "err") + ":" + error.toUtf8();
    case Notification:
        return "note:" + method.toUtf8() + ":" + QJsonDocument::fromVariant(params).toJson(QJsonDocument::Compact);
    case Data:
        return "data:" + QByteArray::number(addr) + ":" + hex(data, 24) + ":" + QByteArray::number(data.size());
    case Garbage:
        return "garbage:" + hex(data, 24);
    }
    return QByteArray();
}

static Event decodeJson(const QByteArray &line)
{
    Event e;
    QJsonParseError err;
    QJsonDocument d = QJsonDocument::fromJson(line, &err);
    if (err.error != QJsonParseError::NoError || !d.isObject()) {
        e.kind = Event::Garbage;
        e.data = line;
        return e;
    }
    QVariantMap m = d.toVariant().toMap();
    e.id = m.value("id").toInt();
    e.params = m.value("params").toMap();
    if (m.contains("notification")) {
        e.kind = Event::Notification;
        e.method = m.value("notification").toString();
    } else if (m.contains("status")) {
        e.kind = Event::Response;
        e.ok = m.value("status").toString() == "success";
        e.error = e.params.value("tunnelProxyError").toString();
        if (!e.ok)
            e.data = m.value("error").toString().toUtf8();
    } else {
        e.kind = Event::Garbage;
        e.data = line;
    }
    return e;
}

World::~World()
{
    for (Peer *p : peers)
        delete p;
    peers.clear();
    stop();
}

remoteproxy::ProxyConfiguration *World::configure(const ServerOptions &o)
{
    opts = o;
    dir = scratchDir();
    QString conf = dir + "/proxy.conf";
    QFile f(conf);
    if (!f.open(QIODevice::WriteOnly | QIODevice::Truncate))
        return nullptr;
    QString text = "[ProxyServer]\nname=@name\nwriteLogs=false\nlogFile=@dir/log\nlogEngineEnabled=@log\nmonitorSocket=@monitor\njsonRpcTimeout=10000\ninactiveTimeout=@inactive\n"
                   "[SSL]\nenabled=@tls\ncertificate=@mc/certs/@cert\ncertificateKey=@mc/certs/@key\ncertificateChain=@chain\n"
                   "[UnixSocketServerTunnelProxy]\nunixSocketFileName=@unix\n"
                   "[WebSocketServerTunnelProxy]\nhost=@host\nport=@wsport\n"
                   "[TcpServerTunnelProxy]\nhost=@host\nport=@tcpport\n";
    text.replace("@name", o.name).replace("@dir", dir).replace("@log", o.logEngine ? "true" : "false").replace("@monitor", monitorPath());
    text.replace("@host", o.ipv6 ? "::" : "127.0.0.1");
    text.replace("@inactive", QString::number(o.inactiveTimeout)).replace("@tls", o.tls ? "true" : "false").replace("@chain", o.chain.isEmpty() ? QString() : "@mc/certs/" + o.chain);
    text.replace("@mc", MC_DIR).replace("@cert", o.cert).replace("@key", o.key);
    text.replace("@unix", unixPath()).replace("@wsport", QString::number(wsPort())).replace("@tcpport", QString::number(tcpPort()));
    f.write(text.toUtf8());
    f.close();
    remoteproxy::ProxyConfiguration *c = new remoteproxy::ProxyConfiguration(nullptr);
    if (!c->loadConfiguration(conf)) {
        ctx.fail("setup", "configuration rejected");
        delete c;
        return nullptr;
    }
    return c;
}

bool World::start(const ServerOptions &o)
{
    sim::setSendBuffer(o.smallBuffers ? 1 : 0);
    remoteproxy::ProxyConfiguration *c = configure(o);
    if (!c)
        return false;
    remoteproxy::Engine::instance()->start(c);
    settle();
    if (!remoteproxy::Engine::instance()->running()) {
        ctx.fail("setup", "engine not running");
        return false;
    }
    return true;
}

void World::stop()
{
    if (remoteproxy::Engine::exists())
        remoteproxy::Engine::instance()->destroy();
    g_disp->settle();
}

Peer *World::open(Transport t, bool settleNow)
{
    Link *l = nullptr;
    m_hosts++;
    quint32 host = t == Unix ? 0x7f000001 : 0x0a000000 + (quint32)(m_hosts / 250 * 256 + m_hosts % 250 + 1);
    sim::setHost(host);
    sim::setV6(opts.ipv6);
    if (t == Tcp) {
        l = new RawLink(sim::rawConnect(tcpPort()));
    } else if (t == Ws) {
        l = new RawLink(sim::rawConnect(wsPort()));
    } else if (t == Unix) {
        l = new RawLink(sim::rawUnixConnect(unixPath().toLocal8Bit().constData()));
    } else {
        l = new TlsLink(t == Tls ? tcpPort() : wsPort());
    }
    sim::setHost(0x7f000001);
    sim::setV6(false);
    Peer *p = adopt(t, l, settleNow);
    p->host = QHostAddress(host);
    if (opts.ipv6 && t != Unix)
        p->host = QHostAddress(QString("2001:db8::%1:%2").arg(host >> 16, 0, 16).arg(host & 0xffff, 0, 16));
    return p;
}

Peer *World::adopt(Transport t, Link *l, bool settleNow)
{
    Peer *p = new Peer(t, l);
    peers.push_back(p);
    if (t == Ws || t == Wss)
        l->write("GET / HTTP/1.1\r\nHost: 127.0.0.1:2212\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n");
    if (settleNow)
        settle();
    return p;
}

void World::release(Peer *p)
{
    for (size_t i = 0; i < peers.size(); ++i)
        if (peers[i] == p) {
            peers.erase(peers.begin() + i);
            break;
        }
    delete p;
}

void World::settle()
{
    for (int i = 0; i < 100000; ++i) {
        if (!g_disp->settle()) {
            if (quiet)
                ctx.fail("livelock", "the event loop does not come to rest");
            quiet = false;
            return;
        }
        bool moved = false;
        for (size_t k = 0; k < peers.size(); ++k)
            moved = peers[k]->pump() || moved;
        for (size_t k = 0; k < pumps.size(); ++k)
            moved = pumps[k]() || moved;
        if (!moved)
            return;
    }
}

void World::advance(qint64 ms)
{
    // step from timer to timer so that the harness ends keep reading in between
    qint64 end = sim::nowNs() / 1000000 + ms;
    settle();
    for (;;) {
        qint64 next = g_disp->nextTimer();
        qint64 now = sim::nowNs() / 1000000;
        if (next < 0 || next > end) {
            g_disp->advance(end - now);
            settle();
            return;
        }
        g_disp->advance(next > now ? next - now : 0);
        settle();
    }
}

QVariantMap World::monitor(bool printAll, bool *ok)
{
    int fd = sim::rawUnixConnect(monitorPath().toLocal8Bit().constData());
    if (ok)
        *ok = false;
    if (fd < 0)
        return QVariantMap();
    RawLink l(fd);
    settle();
    l.write(printAll ? "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n" : "{\"method\":\"refresh\"}\n");
    for (int i = 0; i < 100; ++i) {
        settle();
        if (!l.pump())
            break;
    }
    QJsonParseError err;
    QJsonDocument d = QJsonDocument::fromJson(l.rx, &err);
    l.close();
    settle();
    if (err.error != QJsonParseError::NoError)
        return QVariantMap();
    if (ok)
        *ok = true;
    return d.toVariant().toMap();
}

// ---------------------------------------------------------------------------------------------
QByteArray Conn::encode(int id, const QString &method, const QVariantMap &params)
{
    QByteArray r = ref::request(id, method, params);
    return mode == Slip ? ref::frame(0, r) : r;
}

int Conn::request(const QString &method, const QVariantMap &params)
{
    int id = nextId++;
    sendRaw(encode(id, method, params));
    return id;
}

std::vector<Event> Conn::take()
{
    buf.append(peer->take());
    std::vector<Event> out;
    if (!pending.empty()) {
        out.swap(pending);
    }
    while (mode == Json) {
        int nl = buf.indexOf('\n');
        if (nl < 0)
            break;
        QByteArray line = buf.left(nl);
        buf = buf.mid(nl + 1);
        Event e = decodeJson(line);
        out.push_back(e);
        if (e.kind == Event::Response && e.ok && e.error == "TunnelProxyErrorNoError") {
            if (e.params.contains("slipEnabled"))
                mode = Slip;
            else
                mode = Raw;
        }
    }
    if (mode == Slip) {
        for (const ref::Frame &f : ref::slipDecode(buf)) {
            if (!f.valid || f.shortFrame) {
                Event e;
                e.kind = Event::Garbage;
                out.push_back(e);
                garbage++;
            } else if (f.addr == 0) {
                out.push_back(decodeJson(f.data));
            } else {
                Event e;
                e.kind = Event::Data;
                e.addr = f.addr;
                e.data = f.data;
                if (!out.empty() && out.back().kind == Event::Data && out.back().addr == f.addr)
                    out.back().data.append(f.data);
                else
                    out.push_back(e);
            }
        }
    } else if (mode == Raw && !buf.isEmpty()) {
        Event e;
        e.kind = Event::Data;
        e.data = buf;
        buf.clear();
        out.push_back(e);
    }
    return out;
}

void Conn::close()
{
    world.release(peer);
    peer = nullptr;
}

bool Conn::registerServer(const QUuid &u, const QString &name)
{
    QVariantMap p;
    p["serverName"] = name;
    p["serverUuid"] = u.toString();
    int id = request("TunnelProxy.RegisterServer", p);
    world.settle();
    std::vector<Event> ev = take();
    bool ok = false;
    for (auto &e : ev) {
        if (e.kind == Event::Response && e.id == id)
            ok = e.ok && e.error == "TunnelProxyErrorNoError";
        else
            pending.push_back(e);
    }
    return ok;
}

bool Conn::registerClient(const QUuid &u, const QUuid &server, const QString &name)
{
    QVariantMap p;
    p["clientName"] = name;
    p["clientUuid"] = u.toString();
    p["serverUuid"] = server.toString();
    int id = request("TunnelProxy.RegisterClient", p);
    world.settle();
    std::vector<Event> ev = take();
    bool ok = false;
    for (auto &e : ev) {
        if (e.kind == Event::Response && e.id == id)
            ok = e.ok && e.error == "TunnelProxyErrorNoError";
        else
            pending.push_back(e);
    }
    return ok;
}

QUuid uuidOf(int i)
{
    return QUuid(0x5a000000u + i, 0x1111, 0x4222, 0x83, 0x33, 0x44, 0x44, 0x55, 0x55, 0x66, quint8(i));
}

QByteArray hex(const QByteArray &d, int max)
{
    QByteArray h = d.left(max).toHex();
    if (d.size() > max)
        h += "...";
    return h;
}

QByteArray pattern(int size, int seed)
{
    QByteArray d(size, 0);
    quint32 x = 12345u + seed * 7919u;
    for (int i = 0; i < size; ++i) {
        x = x * 1103515245u + 12345u;
        d[i] = (char)((i < 256) ? (i + seed) : (x >> 16));
    }
    return d;
}

#include "client.h"

#include <QCryptographicHash>
#include <sys/socket.h>
#include <unistd.h>

bool FakeEnd::pump()
{
    bool moved = link->pump();
    if (link->rx.isEmpty())
        return moved;
    if (!ws) {
        rx.append(link->rx);
        link->rx.clear();
        return true;
    }
    m_raw.append(link->rx);
    link->rx.clear();
    if (!open) {
        int p = m_raw.indexOf("\r\n\r\n");
        if (p < 0)
            return moved;
        QByteArray key;
        for (const QByteArray &l : m_raw.left(p).split('\n'))
            if (l.toLower().startsWith("sec-websocket-key:"))
                key = l.mid(18).trimmed();
        m_raw = m_raw.mid(p + 4);
        QByteArray accept = QCryptographicHash::hash(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11", QCryptographicHash::Sha1).toBase64();
        link->write("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + accept + "\r\n\r\n");
        open = true;
    }
    for (;;) {
        if (m_raw.size() < 2)
            return true;
        int op = m_raw[0] & 0x0f;
        quint64 n = (unsigned char)m_raw[1] & 0x7f;
        int h = 2;
        if (n == 126) {
            if (m_raw.size() < 4)
                return true;
            n = ((unsigned char)m_raw[2] << 8) | (unsigned char)m_raw[3];
            h = 4;
        } else if (n == 127) {
            if (m_raw.size() < 10)
                return true;
            n = 0;
            for (int i = 0; i < 8; ++i)
                n = (n << 8) | (unsigned char)m_raw[2 + i];
            h = 10;
        }
        bool masked = m_raw[1] & 0x80;
        QByteArray mask = m_raw.mid(h, masked ? 4 : 0);
        h += mask.size();
        if ((quint64)m_raw.size() < h + n)
            return true;
        QByteArray p = m_raw.mid(h, (int)n);
        m_raw = m_raw.mid(h + (int)n);
        if (masked)
            for (int i = 0; i < p.size(); ++i)
                p[i] = p[i] ^ mask[i & 3];
        if (op == 8) {
            QByteArray f("\x88", 1);
            f.append((char)std::min(p.size(), 2));
            f.append(p.left(2));
            if (!saidBye)
                link->write(f);
            saidBye = true;
        } else if (op == 9) {
            QByteArray f("\x8a", 1);
            f.append((char)p.size());
            link->write(f + p);
        } else if (op <= 2) {
            rx.append(p);
        }
    }
}

QByteArray FakeEnd::encode(const QByteArray &payload) const
{
    if (!ws)
        return payload;
    QByteArray f;
    int n = payload.size();
    f.append('\x81');
    if (n < 126) {
        f.append((char)n);
    } else if (n < 65536) {
        f.append((char)126);
        f.append((char)(n >> 8));
        f.append((char)n);
    } else {
        f.append((char)127);
        for (int i = 7; i >= 0; --i)
            f.append((char)((quint64)n >> (8 * i)));
    }
    return f + payload;
}

std::vector<QVariantMap> FakeEnd::requests(bool slip, std::vector<ref::Frame> *data, bool *odd)
{
    std::vector<QVariantMap> out;
    buf.append(rx);
    rx.clear();
    auto one = [&](const QByteArray &line) {
        QJsonParseError e;
        QJsonDocument d = QJsonDocument::fromJson(line, &e);
        if (e.error == QJsonParseError::NoError && d.isObject())
            out.push_back(d.toVariant().toMap());
        else if (odd)
            *odd = true;
    };
    if (slip) {
        for (const ref::Frame &f : ref::slipDecode(buf)) {
            if (!f.valid || f.shortFrame) {
                if (odd)
                    *odd = true;
            } else if (f.addr == 0) {
                one(f.data);
            } else if (data) {
                data->push_back(f);
            }
        }
        return out;
    }
    for (;;) {
        int nl = buf.indexOf('\n');
        if (nl < 0)
            return out;
        one(buf.left(nl));
        buf = buf.mid(nl + 1);
    }
}

FakeProxy::FakeProxy(World &world, quint16 p, bool webSocket) : w(world), port(p), ws(webSocket)
{
    listen();
    w.pumps.push_back([this] { return pump(); });
}

FakeProxy::~FakeProxy()
{
    unlisten();
    w.pumps.clear();
}

void FakeProxy::listen()
{
    if (lfd < 0)
        lfd = sim::rawListen(port);
}

void FakeProxy::unlisten()
{
    if (lfd >= 0)
        ::close(lfd);
    lfd = -1;
}

bool FakeProxy::pump()
{
    bool moved = false;
    while (lfd >= 0) {
        int fd = ::accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
        if (fd < 0)
            break;
        ends.emplace_back(new FakeEnd(fd, ws));
        moved = true;
    }
    for (auto &e : ends) {
        moved = e->pump() || moved;
        if (e->link->fd() >= 0 && (e->link->eof || (e->saidBye && e->link->unsent() == 0))) {
            e->close(); // what a server does
            moved = true;
        }
    }
    return moved;
}

int FakeProxy::open() const
{
    int n = 0;
    for (auto &e : ends)
        n += !e->closed();
    return n;
}

QUrl FakeProxy::url() const { return QUrl(QString("%1://127.0.0.1:%2").arg(ws ? "ws" : "tcp").arg(port)); }

namespace wire {

QByteArray ok(int id, const QVariantMap &params)
{
    QVariantMap m;
    m["id"] = id;
    m["status"] = "success";
    m["params"] = params;
    return ref::json(m);
}

QByteArray hello(int id)
{
    QVariantMap p;
    p["server"] = "nymea-remoteproxy";
    p["name"] = "fake";
    p["version"] = "9.9";
    p["apiVersion"] = "0.6";
    return ok(id, p);
}

QByteArray registered(int id, bool server)
{
    QVariantMap p;
    p["tunnelProxyError"] = "TunnelProxyErrorNoError";
    if (server)
        p["slipEnabled"] = true;
    return ok(id, p);
}

QByteArray error(int id)
{
    QVariantMap m;
    m["id"] = id;
    m["status"] = "error";
    m["error"] = "no";
    return ref::json(m);
}

QByteArray refused(int id)
{
    QVariantMap p;
    p["tunnelProxyError"] = "TunnelProxyErrorServerNotFound";
    return ok(id, p);
}

QByteArray note(int id, const QString &method, const QVariantMap &params)
{
    QVariantMap m;
    m["id"] = id;
    m["notification"] = method;
    m["params"] = params;
    return ref::json(m);
}

QString peerOf(int who)
{
    return who % 2 ? QString("10.0.0.%1").arg(who) : QString("2001:db8::%1").arg(who);
}

QByteArray joined(int id, int addr, int who)
{
    QVariantMap p;
    p["clientName"] = QString("client {%1}").arg(who);
    p["clientUuid"] = uuidOf(who).toString();
    p["clientPeerAddress"] = peerOf(who);
    p["socketAddress"] = addr;
    return note(id, "TunnelProxy.ClientConnected", p);
}

QByteArray left(int id, int addr)
{
    QVariantMap p;
    p["socketAddress"] = addr;
    return note(id, "TunnelProxy.ClientDisconnected", p);
}

} // namespace wire

void SequenceCheck::extend(std::vector<int> &prefix, int d)
{
    bool any = false;
    if ((int)prefix.size() < d) {
        for (int o = 0; o < ops.size(); ++o) {
            if (!possible(prefix, o))
                continue;
            any = true;
            prefix.push_back(o);
            extend(prefix, d);
            prefix.pop_back();
        }
    }
    if (!any)
        cases.push_back(prefix);
}

void SequenceCheck::prepare(bool thorough)
{
    cases.clear();
    std::vector<int> p;
    extend(p, thorough ? depthThorough : depth);
}

QString SequenceCheck::describe(size_t i) const
{
    QStringList l;
    for (int o : cases[i])
        l << ops[o];
    return name + ": " + l.join(", ");
}

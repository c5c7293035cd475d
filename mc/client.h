#pragma once
#include "fix.h"

#include "proxyconnection.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "tunnelproxy/tunnelproxysocket.h"
#include "tunnelproxy/tunnelproxysocketserver.h"

#include <QPointer>

// The proxy's side, played by the harness, for checks of the client library alone.
struct FakeEnd {
    explicit FakeEnd(int fd, bool webSocket) : link(new RawLink(fd)), ws(webSocket) {}
    std::unique_ptr<RawLink> link;
    bool ws;
    bool open = false;      // the web socket handshake is done
    bool saidBye = false;   // a web socket close frame arrived
    QByteArray rx;          // payload received, in order
    QByteArray buf;         // of requests(), incomplete
    bool pump();
    QByteArray encode(const QByteArray &payload) const; // on the wire
    void put(const QByteArray &wire) { link->write(wire); }
    void send(const QByteArray &payload) { put(encode(payload)); }
    void close() { link->close(); }
    bool closed() const { return link->eof || saidBye; }
    // decoded requests received so far; lines or SLIP frames
    std::vector<QVariantMap> requests(bool slip, std::vector<ref::Frame> *data = nullptr, bool *odd = nullptr);

private:
    QByteArray m_raw;
};

struct FakeProxy {
    FakeProxy(World &world, quint16 p, bool webSocket);
    ~FakeProxy();
    World &w;
    quint16 port;
    bool ws;
    int lfd = -1;
    std::vector<std::unique_ptr<FakeEnd>> ends;
    void listen();
    void unlisten();
    bool pump();
    FakeEnd *last() { return ends.empty() ? nullptr : ends.back().get(); }
    int open() const;
    QUrl url() const;
};

namespace wire {
QByteArray ok(int id, const QVariantMap &params);
QByteArray hello(int id);
QByteArray registered(int id, bool server);
QByteArray error(int id);
QByteArray refused(int id);
QByteArray note(int id, const QString &method, const QVariantMap &params);
QString peerOf(int who); // the address of a client
QByteArray joined(int id, int addr, int who); // ClientConnected
QByteArray left(int id, int addr);            // ClientDisconnected
}

// All sequences of operations a model allows, up to a depth.
struct SequenceCheck : Check {
    QString name;
    QStringList ops;
    int depth, depthThorough;
    // whether the operation is possible behind the prefix
    std::function<bool(const std::vector<int> &, int)> possible;
    std::function<void(const std::vector<int> &, Ctx &)> execute;
    QString boundsText;
    std::vector<std::vector<int>> cases;
    void prepare(bool thorough) override;
    size_t count() const override { return cases.size(); }
    QString describe(size_t i) const override;
    void run(size_t i, Ctx &ctx) override { execute(cases[i], ctx); }
    QString bounds() const override { return boundsText.arg(g_thorough ? depthThorough : depth).arg(ops.join(", ")); }

private:
    void extend(std::vector<int> &prefix, int depth);
};

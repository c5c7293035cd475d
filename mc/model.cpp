#include "model.h"

#include <algorithm>
#include <deque>
#include <unordered_set>

static const char *kKinds[] = {"open", "close", "registerServer", "registerClient", "hello", "ping", "data", "frame", "frameTo", "disconnectClient", "disconnectAddr", "bad", "nullUuid", "silence"};

QString opText(const Op &o)
{
    return QString("%1(%2,%3,%4)").arg(kKinds[o.kind]).arg(o.a).arg(o.b).arg(o.c);
}

QByteArray payloadOf(int i)
{
    switch (i) {
    case 0:
        return QByteArray("hello tunnel");
    case 1:
        return QByteArray("\xC0\xDB\xDC\xDD\xC0\xC0\xDB\xDB", 8);
    case 2:
        return QByteArray("{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\n");
    case 3:
        return QByteArray("\x00", 1);
    case 4:
        return pattern(300, 3);
    case 5:
        return QByteArray("}\n{");
    default:
        return QByteArray("payload ") + QByteArray::number(i);
    }
}
int payloadCount() { return 6; }

bool MState::uuidBusy(int u) const
{
    for (int i = 0; i < n; ++i)
        if ((s[i].role == Server || s[i].role == Client) && s[i].uuid == u)
            return true;
    return false;
}
int MState::serverByUuid(int u) const
{
    for (int i = 0; i < n; ++i)
        if (s[i].role == Server && s[i].uuid == u)
            return i;
    return -1;
}
int MState::clientByAddr(int server, int addr) const
{
    for (int i = 0; i < n; ++i)
        if (s[i].role == Client && s[i].server == server && s[i].addr == addr)
            return i;
    return -1;
}

QByteArray MState::key() const
{
    // Addresses are compared only up to equality with live ones: which stale address a slot remembers
    // matters only through "is it live now and for whom".
    QByteArray k;
    for (int i = 0; i < n; ++i) {
        const MSlot &x = s[i];
        k.append((char)('0' + x.role)).append((char)('a' + x.uuid + 1)).append((char)('a' + x.server + 1));
        if (x.role != Client)
            k.append(x.addr >= 0 ? 's' : '-').append((char)('a' + x.addrServer + 1));
        k.append(QByteArray::number(x.role == Fresh || x.role == Server ? x.idle / 100 : 0)).append(' ');
    }
    return k;
}

void MState::drop(int slot, std::array<Expect, kMax> &ex, bool tellPeer)
{
    MSlot old = s[slot];
    int addr = old.addr, as = old.addrServer;
    s[slot] = MSlot();
    s[slot].addr = addr;
    s[slot].addrServer = as;
    if (tellPeer)
        ex[slot].closed = true;
    if (old.role == Client && s[old.server].role == Server)
        ex[old.server].notes.push_back({false, slot, old.addr});
    if (old.role == Server) {
        for (int i = 0; i < n; ++i) {
            if (s[i].role == Client && s[i].server == slot) {
                int a = s[i].addr;
                s[i] = MSlot();
                s[i].addr = a;
                s[i].addrServer = slot;
                ex[i].closed = true;
            }
        }
    }
}

void MState::apply(const Op &o, std::array<Expect, kMax> &ex)
{
    if (o.kind == OpTick) {
        // silence: only the idle rules act; simultaneous expiries are not generated
        for (int i = 0; i < n; ++i)
            if (s[i].role == Fresh || s[i].role == Server)
                s[i].idle += o.b;
        for (int i = 0; i < n; ++i) {
            if (s[i].role == Fresh && s[i].idle >= inactiveTimeout)
                drop(i, ex, true);
            else if (s[i].role == Server && s[i].idle >= 60000)
                drop(i, ex, true);
        }
        return;
    }
    MSlot &x = s[o.a];
    Expect &me = ex[o.a];
    if (x.role == Server && o.kind != OpClose)
        x.idle = 0;
    switch (o.kind) {
    case OpOpen:
        x.role = Fresh;
        x.uuid = x.server = -1;
        x.idle = 0;
        break;
    case OpClose:
        drop(o.a, ex, false);
        break;
    case OpRegServer:
        if (x.role == Client)
            break; // it is tunnel data; not generated
        if (x.role != Fresh || uuidBusy(o.b)) {
            me.resp.push_back({true, "TunnelProxyErrorAlreadyRegistered", 0});
            drop(o.a, ex, true);
            break;
        }
        me.resp.push_back({true, "TunnelProxyErrorNoError", 0});
        x.role = Server;
        x.uuid = o.b;
        x.idle = 0;
        break;
    case OpRegClient: {
        if (x.role == Client)
            break;
        int srv = serverByUuid(o.c);
        if (x.role != Fresh || uuidBusy(o.b)) {
            me.resp.push_back({true, "TunnelProxyErrorAlreadyRegistered", 0});
            drop(o.a, ex, true);
            break;
        }
        if (srv < 0) {
            me.resp.push_back({true, "TunnelProxyErrorServerNotFound", 0});
            drop(o.a, ex, true);
            break;
        }
        me.resp.push_back({true, "TunnelProxyErrorNoError", 0});
        x.role = Client;
        x.uuid = o.b;
        x.server = srv;
        x.addr = nextSym++;
        x.addrServer = srv;
        ex[srv].notes.push_back({true, o.a, x.addr});
        break;
    }
    case OpHello:
        me.resp.push_back({true, QString(), 1});
        break;
    case OpPing:
        me.resp.push_back({true, QString(), 2});
        break;
    case OpData:
        ex[x.server].data.push_back({x.addr, payloadOf(o.b)});
        break;
    case OpFrame:
    case OpFrameTo: {
        int addr = o.kind == OpFrame ? s[o.b].addr : o.b;
        int c = clientByAddr(o.a, addr);
        if (c >= 0)
            ex[c].data.push_back({-1, payloadOf(o.c)});
        break;
    }
    case OpDisc:
    case OpDiscTo: {
        if (x.role == Fresh) {
            me.resp.push_back({true, "TunnelProxyErrorAlreadyRegistered", 0});
            drop(o.a, ex, true);
            break;
        }
        int addr = o.kind == OpDisc ? s[o.b].addr : o.b;
        int c = clientByAddr(o.a, addr);
        if (c < 0) {
            me.resp.push_back({true, "TunnelProxyErrorUnknownSocketAddress", 0});
        } else {
            me.resp.push_back({true, "TunnelProxyErrorNoError", 0});
            drop(c, ex, true);
        }
        break;
    }
    case OpBad:
        me.resp.push_back({false, QString(), 3});
        drop(o.a, ex, true);
        break;
    case OpNullUuid:
        if (x.role == Server) {
            me.resp.push_back({true, "TunnelProxyErrorInvalidUuid", 0});
        } else {
            me.resp.push_back({true, "TunnelProxyErrorInvalidUuid", 0});
        }
        break;
    case OpTick:
        break;
    }
}

// ---------------------------------------------------------------------------------------------
Lockstep::Lockstep(Ctx &c, const LockstepConfig &cf) : world(c), ctx(c), cfg(cf)
{
    model.n = (int)cfg.transports.size();
    model.inactiveTimeout = cfg.server.inactiveTimeout;
    g_disp->setOrder(cfg.order);
    world.start(cfg.server);
}

Lockstep::~Lockstep()
{
    for (auto &c : conns)
        c.reset();
}

bool Lockstep::mismatch(int cat, const QString &key, const QString &msg)
{
    if (cat & cfg.categories)
        ctx.fail(key, msg);
    else
        ctx.outcome("diverged outside this property: " + key.toUtf8());
    diverged = true;
    return false;
}

void Lockstep::deliver(Conn &c, const QByteArray &d)
{
    if (!cfg.split) {
        c.sendRaw(d);
        return;
    }
    for (int i = 0; i < d.size(); ++i) {
        c.sendRaw(d.mid(i, 1));
        world.settle();
    }
}

// Names are free text and come back as they were given.
static QString nameOf(const char *role, int slot)
{
    switch (slot) {
    case 1:
        return QString("  %1 \"1\" \\ {[ ").arg(role);
    case 2:
        return QString::fromUtf8("\xd0\xba\xd0\xbb\xd0\xb8\xd0\xb5\xd0\xbd\xd1\x82\t%1  2\n").arg(role);
    case 3:
        return QString();
    case 4:
        return QString(role) + QString(40, 'x') + "\r\n%1";
    default:
        return QString("%1 %2").arg(role).arg(slot);
    }
}

static QVariantMap regServerParams(const QUuid &u, int slot)
{
    QVariantMap p;
    p["serverName"] = nameOf("server", slot);
    p["serverUuid"] = u.toString();
    return p;
}
static QVariantMap regClientParams(const QUuid &u, const QUuid &srv, int slot)
{
    QVariantMap p;
    p["clientName"] = nameOf("client", slot);
    p["clientUuid"] = u.toString();
    p["serverUuid"] = srv.toString();
    return p;
}

bool Lockstep::step(const Op &o)
{
    if (ctx.failed || diverged)
        return false;
    MState before = model;
    std::array<Expect, MState::kMax> ex;
    int reqId = -1;
    QVariant stamp;
    auto req = [&](const QString &method, const QVariantMap &params) {
        Conn &c = *conns[o.a];
        reqId = c.nextId++;
        deliver(c, c.encode(reqId, method, params));
    };
    switch (o.kind) {
    case OpOpen:
        m_opened[o.a] = (sim::nowNs() + sim::kEpochNs) / 1000000000LL;
        conns[o.a].reset(new Conn(world, cfg.transports[o.a]));
        break;
    case OpClose:
        conns[o.a]->close();
        conns[o.a].reset();
        break;
    case OpRegServer:
        req("TunnelProxy.RegisterServer", regServerParams(uuidOf(o.b), o.a));
        break;
    case OpRegClient:
        req("TunnelProxy.RegisterClient", regClientParams(uuidOf(o.b), uuidOf(o.c), o.a));
        break;
    case OpHello:
        req("RemoteProxy.Hello", QVariantMap());
        break;
    case OpPing: {
        QVariantMap p;
        stamp = (uint)m_pingStamp++;
        p["timestamp"] = stamp;
        req("TunnelProxy.Ping", p);
        break;
    }
    case OpData:
        deliver(*conns[o.a], payloadOf(o.b));
        break;
    case OpFrame:
        deliver(*conns[o.a], ref::frame((quint16)model.s[o.b].addr, payloadOf(o.c)));
        break;
    case OpFrameTo:
        deliver(*conns[o.a], ref::frame((quint16)o.b, payloadOf(o.c)));
        break;
    case OpDisc:
    case OpDiscTo: {
        QVariantMap p;
        p["socketAddress"] = (uint)(o.kind == OpDisc ? model.s[o.b].addr : o.b);
        req("TunnelProxy.DisconnectClient", p);
        break;
    }
    case OpBad: {
        Conn &c = *conns[o.a];
        QByteArray d;
        reqId = c.nextId++;
        switch (o.b) {
        case 0:
            d = "{ this is not json }\n";
            reqId = -1;
            break;
        case 1:
            d = "{\"method\":\"RemoteProxy.Hello\"}\n";
            reqId = -1;
            break;
        case 2:
            d = ref::request(reqId, "RemoteProxy.NoSuchMethod");
            break;
        case 3:
            d = ref::request(reqId, "Nowhere.Hello");
            break;
        case 4:
            d = ref::request(reqId, "Hello");
            break;
        case 5: { // wrong parameter type
            QVariantMap p;
            p["serverName"] = QVariantList();
            p["serverUuid"] = uuidOf(0).toString();
            d = ref::request(reqId, "TunnelProxy.RegisterServer", p);
            break;
        }
        case 6: // missing parameters
            d = ref::request(reqId, "TunnelProxy.RegisterClient");
            break;
        default: { // surplus parameter
            QVariantMap p = regServerParams(uuidOf(9), o.a);
            p["extra"] = true;
            d = ref::request(reqId, "TunnelProxy.RegisterServer", p);
            break;
        }
        }
        deliver(c, c.mode == Conn::Slip ? ref::frame(0, d) : d);
        break;
    }
    case OpNullUuid:
        if (o.b == 0)
            req("TunnelProxy.RegisterServer", regServerParams(QUuid(), o.a));
        else if (o.b == 1)
            req("TunnelProxy.RegisterClient", regClientParams(QUuid(), uuidOf(1), o.a));
        else
            req("TunnelProxy.RegisterClient", regClientParams(uuidOf(8), QUuid(), o.a));
        break;
    case OpTick:
        world.advance(o.b);
        break;
    }
    world.settle();
    if (!world.quiet)
        return mismatch(CatLivelock, "livelock", "event loop does not come to rest after " + opText(o));
    model.apply(o, ex);
    ctx.step();
    bool ok = compare(o, ex, before, reqId, stamp);
    if (ok && cfg.checkMonitor) {
        ok = monitorMatches();
        // connections made one after the other differ in their time of connection
        bool room = true;
        for (int i = 0; i < model.n; ++i)
            room = room && !(model.s[i].role == Fresh && model.s[i].idle + 1500 > model.inactiveTimeout) && !(model.s[i].role == Server && model.s[i].idle > 58000);
        if (ok && room) {
            Op second = {OpTick, 0, 1000, 0};
            std::array<Expect, MState::kMax> none;
            model.apply(second, none);
            world.advance(1000);
        }
    }
    ctx.state(model.key());
    return ok && !ctx.failed;
}

bool Lockstep::compare(const Op &o, const std::array<Expect, MState::kMax> &ex, const MState &before, int reqId, const QVariant &stamp)
{
    QString at = opText(o);
    // first the new tunnel address, since other connections' expectations refer to it
    std::array<std::vector<Event>, MState::kMax> got;
    for (int i = 0; i < model.n; ++i)
        if (conns[i])
            got[i] = conns[i]->take();
    for (int i = 0; i < model.n; ++i) {
        for (const Expect::Note &nt : ex[i].notes) {
            if (!nt.connected)
                continue;
            for (const Event &e : got[i]) {
                if (e.kind == Event::Notification && e.method == "TunnelProxy.ClientConnected") {
                    bool conv = false;
                    int addr = e.params.value("socketAddress").toInt(&conv);
                    if (!conv || addr <= 0 || addr >= 0xFFFF)
                        return mismatch(CatAddr, "address:reserved", QString("%1: tunnel address %2 is reserved or out of range").arg(at).arg(addr));
                    for (int k = 0; k < model.n; ++k)
                        if (k != nt.slot && model.s[k].role == Client && model.s[k].server == i && model.s[k].addr == addr)
                            return mismatch(CatAddr, "address:duplicate", QString("%1: tunnel address %2 given to two live clients").arg(at).arg(addr));
                    model.s[nt.slot].addr = addr;
                }
            }
        }
    }
    for (int i = 0; i < model.n; ++i) {
        if (!conns[i])
            continue;
        Conn &c = *conns[i];
        const Expect &e = ex[i];
        size_t r = 0, nt = 0, d = 0;
        bool uninvolved = e.resp.empty() && e.notes.empty() && e.data.empty();
        for (const Event &g : got[i]) {
            ctx.observe(QByteArray::number(i) + ":" + g.canonical());
            ctx.outcome(g.kind == Event::Response ? "resp:" + g.error.toUtf8() + (g.ok ? "+" : "-") : g.kind == Event::Notification ? g.method.toUtf8() : QByteArray("data"));
            if (g.kind == Event::Garbage)
                return mismatch(CatGarbage | CatUp | CatDown | CatResp, "garbage", QString("%1: undecodable output at connection %2: %3").arg(at).arg(i).arg(QString(hex(g.data))));
            if (uninvolved)
                return mismatch(g.kind == Event::Data ? CatLeak : g.kind == Event::Notification ? (CatNote | CatLeak) : (CatResp | CatLeak), "leak",
                                QString("%1: connection %2 received %3 though nothing is due there").arg(at).arg(i).arg(QString(g.canonical())));
            if (g.kind == Event::Response) {
                if (r >= e.resp.size())
                    return mismatch(CatResp, "response:extra", QString("%1: extra response at %2: %3").arg(at).arg(i).arg(QString(g.canonical())));
                const Expect::Resp &x = e.resp[r++];
                if (g.id != reqId)
                    return mismatch(CatResp, "response:id", QString("%1: response id %2, request id %3").arg(at).arg(g.id).arg(reqId));
                if (g.ok != x.ok || (x.ok && x.what == 0 && g.error != x.error))
                    return mismatch(CatResp, "response:content", QString("%1: got %2, expected %3 %4").arg(at, QString(g.canonical()), x.ok ? "success" : "error", x.error));
                if (x.what == 1) {
                    if (g.params.value("name").toString() != "mc proxy" || g.params.value("server").toString().isEmpty() || g.params.value("version").toString().isEmpty() || g.params.value("apiVersion").toString().isEmpty())
                        return mismatch(CatResp, "response:hello", at + ": incomplete Hello answer");
                }
                if (x.what == 2 && g.params.value("timestamp").toUInt() != stamp.toUInt())
                    return mismatch(CatResp, "response:ping", at + ": Ping timestamp not echoed");
                if (x.what == 3 && g.data.isEmpty())
                    return mismatch(CatResp, "response:noreason", at + ": error without reason");
            } else if (g.kind == Event::Notification) {
                if (nt >= e.notes.size())
                    return mismatch(CatNote, "notification:extra", QString("%1: extra notification at %2: %3").arg(at).arg(i).arg(QString(g.canonical())));
                const Expect::Note &x = e.notes[nt++];
                if (g.method != (x.connected ? "TunnelProxy.ClientConnected" : "TunnelProxy.ClientDisconnected"))
                    return mismatch(CatNote, "notification:kind", QString("%1: got %2").arg(at, QString(g.canonical())));
                if (x.connected) {
                    const MSlot &cl = model.s[x.slot];
                    if (g.params.value("clientUuid").toString() != uuidOf(cl.uuid).toString() || g.params.value("clientName").toString() != nameOf("client", x.slot))
                        return mismatch(CatNote, "notification:identity", QString("%1: wrong client in %2").arg(at, QString(g.canonical())));
                    QHostAddress pa(g.params.value("clientPeerAddress").toString());
                    if (!conns[x.slot] || pa != conns[x.slot]->peer->host)
                        return mismatch(CatNote, "notification:peer", QString("%1: wrong peer address in %2").arg(at, QString(g.canonical())));
                } else if (g.params.value("socketAddress").toInt() != before.s[x.slot].addr) {
                    return mismatch(CatNote | CatAddr, "notification:address", QString("%1: disconnect of address %2 reported as %3").arg(at).arg(before.s[x.slot].addr).arg(g.params.value("socketAddress").toInt()));
                }
            } else {
                int cat = before.s[i].role == Client || model.s[i].role == Client ? CatDown : CatUp;
                if (d >= e.data.size())
                    return mismatch(cat | CatLeak, "data:extra", QString("%1: unexpected data at %2: %3").arg(at).arg(i).arg(QString(g.canonical())));
                const Expect::DataE &x = e.data[d++];
                if (cat == CatUp && g.addr != x.addr)
                    return mismatch(CatUp | CatLeak | CatAddr, "data:address", QString("%1: data of address %2 delivered as %3").arg(at).arg(x.addr).arg(g.addr));
                if (g.data != x.bytes)
                    return mismatch(cat, "data:bytes", QString("%1: connection %2 got %3, sent %4").arg(at).arg(i).arg(QString(hex(g.data)), QString(hex(x.bytes))));
            }
        }
        if (r < e.resp.size())
            return mismatch(CatResp, "response:missing", QString("%1: no response at %2").arg(at).arg(i));
        if (nt < e.notes.size())
            return mismatch(CatNote, "notification:missing", QString("%1: %2 missing at %3").arg(at, e.notes[nt].connected ? "ClientConnected" : "ClientDisconnected").arg(i));
        if (d < e.data.size())
            return mismatch(before.s[i].role == Client ? CatDown : CatUp, "data:missing", QString("%1: data lost on the way to %2: %3").arg(at).arg(i).arg(QString(hex(e.data[d].bytes))));
        bool shouldLive = model.s[i].role != Gone;
        if (c.closed() && shouldLive)
            return mismatch(CatClose, "close:unexpected", QString("%1: connection %2 was closed").arg(at).arg(i));
        if (!c.closed() && !shouldLive)
            return mismatch(CatClose, "close:missing", QString("%1: connection %2 was not closed").arg(at).arg(i));
        if (!shouldLive) {
            c.close();
            conns[i].reset();
        }
    }
    return true;
}

bool Lockstep::monitorMatches()
{
    bool ok = false;
    QVariantMap m = world.monitor(true, &ok);
    if (!ok)
        return mismatch(CatMon, "monitor:noanswer", "the monitor did not answer with a JSON document");
    if (m.value("serverName").toString() != "mc proxy" || m.value("serverVersion").toString().isEmpty() || m.value("apiVersion").toString().isEmpty())
        return mismatch(CatMon, "monitor:head", "the monitor's report does not name the server");
    QVariantMap st = m.value("tunnelProxyStatistic").toMap();
    int total = 0, servers = 0, clients = 0;
    QMap<QString, int> byTransport;
    byTransport["TCP"] = byTransport["WebSocket"] = byTransport["unix"] = 0;
    for (int i = 0; i < model.n; ++i) {
        if (model.s[i].role == Gone)
            continue;
        total++;
        servers += model.s[i].role == Server;
        clients += model.s[i].role == Client;
        Transport t = cfg.transports[i];
        byTransport[t == Unix ? "unix" : (t == Tcp || t == Tls) ? "TCP" : "WebSocket"]++;
    }
    auto num = [&](const char *k) { return st.contains(k) ? st.value(k).toInt() : -1; };
    if (num("totalClientCount") != total || num("serverConnectionsCount") != servers || num("clientConnectionsCount") != clients)
        return mismatch(CatMon, "monitor:counts",
                        QString("monitor says %1 connections, %2 servers, %3 clients; there are %4, %5, %6").arg(num("totalClientCount")).arg(num("serverConnectionsCount")).arg(num("clientConnectionsCount")).arg(total).arg(servers).arg(clients));
    QVariantMap tr = st.value("transports").toMap();
    for (auto it = byTransport.begin(); it != byTransport.end(); ++it)
        if (!tr.contains(it.key()) || tr.value(it.key()).toInt() != it.value())
            return mismatch(CatMon, "monitor:transport", QString("monitor says %1 on %2, there are %3").arg(tr.value(it.key()).toInt()).arg(it.key()).arg(it.value()));
    if (!listMatches(st.value("tunnelConnections").toList(), true))
        return false;
    m = world.monitor(false, &ok);
    if (!ok)
        return mismatch(CatMon, "monitor:noanswer", "the monitor did not answer with a JSON document");
    return listMatches(m.value("tunnelProxyStatistic").toMap().value("tunnelConnections").toList(), false);
}

// one entry of the report against the connection it is about
bool Lockstep::entryMatches(const QVariantMap &e, int slot, const QString &uuidKey, const QString &name)
{
    Peer *p = conns[slot]->peer;
    if (e.value("name").toString() != name || e.value(uuidKey).toUuid() != uuidOf(model.s[slot].uuid))
        return mismatch(CatMon, "monitor:name", QString("wrong name or identity in the report about %1").arg(name));
    if (QHostAddress(e.value("address").toString()) != p->host)
        return mismatch(CatMon, "monitor:address", QString("the report says %1 is at %2, it is at %3").arg(name, e.value("address").toString(), p->host.toString()));
    if (e.value("rxDataCount").toLongLong() != p->sentBytes || e.value("txDataCount").toLongLong() != p->gotBytes)
        return mismatch(CatMon, "monitor:counters", QString("the report says %1 bytes from and %2 bytes to %3, it was %4 and %5").arg(e.value("rxDataCount").toLongLong()).arg(e.value("txDataCount").toLongLong()).arg(name).arg(p->sentBytes).arg(p->gotBytes));
    qint64 ts = e.value("timestamp").toLongLong(), opened = m_opened[slot];
    if (ts < opened || ts > opened + 1)
        return mismatch(CatMon, "monitor:timestamp", QString("the report says %1 connected at %2, it was %3").arg(name).arg(ts).arg(opened));
    return true;
}

bool Lockstep::listMatches(const QVariantList &list, bool all)
{
    QSet<int> seen;
    for (const QVariant &v : list) {
        QVariantMap s = v.toMap();
        int slot = -1;
        for (int i = 0; i < model.n; ++i)
            if (model.s[i].role == Server && uuidOf(model.s[i].uuid) == s.value("serverUuid").toUuid())
                slot = i;
        if (slot < 0 || seen.contains(slot))
            return mismatch(CatMon, "monitor:phantom", "the monitor lists a server that is not connected, or twice");
        seen.insert(slot);
        if (!entryMatches(s, slot, "serverUuid", nameOf("server", slot)))
            return false;
        QSet<int> seenClients;
        for (const QVariant &cv : s.value("clientConnections").toList()) {
            QVariantMap c = cv.toMap();
            int cs = -1;
            for (int i = 0; i < model.n; ++i)
                if (model.s[i].role == Client && model.s[i].server == slot && uuidOf(model.s[i].uuid) == c.value("clientUuid").toUuid())
                    cs = i;
            if (cs < 0 || seenClients.contains(cs))
                return mismatch(CatMon, "monitor:phantom", "the monitor lists a client that is not connected to this server, or twice");
            seenClients.insert(cs);
            if (!entryMatches(c, cs, "clientUuid", nameOf("client", cs)))
                return false;
        }
        for (int i = 0; i < model.n; ++i)
            if (model.s[i].role == Client && model.s[i].server == slot && !seenClients.contains(i))
                return mismatch(CatMon, "monitor:clients", QString("the monitor does not list client %1").arg(i));
    }
    for (int i = 0; i < model.n; ++i) {
        if (model.s[i].role != Server)
            continue;
        bool busy = false;
        for (int k = 0; k < model.n; ++k)
            busy = busy || (model.s[k].role == Client && model.s[k].server == i);
        if (seen.contains(i) != (all || busy))
            return mismatch(CatMon, "monitor:servers", QString("server %1 %2").arg(i).arg(seen.contains(i) ? "has no client and is listed without printAll" : "is not listed"));
    }
    return true;
}

// ---------------------------------------------------------------------------------------------
std::vector<Op> ModelCheck::history(int node) const
{
    std::vector<Op> h;
    for (int k = node; k >= 0 && m_nodes[k].parent >= -1 && m_nodes[k].len > 0; k = m_nodes[k].parent)
        h.push_back(m_nodes[k].op);
    std::reverse(h.begin(), h.end());
    return h;
}

void ModelCheck::prepare(bool)
{
    MState init;
    init.n = (int)cfg.transports.size();
    init.inactiveTimeout = cfg.server.inactiveTimeout;
    for (const Op &o : prefix) {
        std::array<Expect, MState::kMax> ex;
        init.apply(o, ex);
    }
    m_nodes.clear();
    m_traces.clear();
    m_nodes.push_back({-1, Op{OpTick, 0, 0, 0}, 0, false});
    std::unordered_set<std::string> seen;
    struct Item {
        MState st;
        int node;
        std::vector<Op> last;
    };
    auto keyOf = [&](const MState &s, const std::vector<Op> &last) {
        QByteArray k = s.key();
        for (const Op &o : last)
            k += "|" + opText(o).toUtf8();
        return k.toStdString();
    };
    std::deque<Item> todo;
    todo.push_back({init, 0, {}});
    seen.insert(keyOf(init, {}));
    m_states = 1;
    while (!todo.empty()) {
        Item it = todo.front();
        todo.pop_front();
        if (m_nodes[it.node].len >= depth)
            continue;
        for (const Op &o : alphabet(it.st)) {
            if (m_nodes.size() > maxTraces) {
                m_cut = true;
                break;
            }
            MState nx = it.st;
            std::array<Expect, MState::kMax> ex;
            nx.apply(o, ex);
            m_transitions++;
            int node = (int)m_nodes.size();
            m_nodes.push_back({it.node, o, m_nodes[it.node].len + 1, false});
            m_nodes[it.node].inner = true;
            std::vector<Op> last = it.last;
            last.push_back(o);
            while ((int)last.size() > memory)
                last.erase(last.begin());
            if (seen.insert(keyOf(nx, last)).second) {
                m_states++;
                todo.push_back({nx, node, last});
            }
        }
    }
    for (size_t k = 0; k < m_nodes.size(); ++k)
        if (!m_nodes[k].inner)
            m_traces.push_back((int)k);
}

QString ModelCheck::describe(size_t i) const
{
    QStringList l;
    for (const Op &o : prefix)
        l << opText(o);
    if (!prefix.empty())
        l << "|";
    for (const Op &o : history(m_traces[i]))
        l << opText(o);
    return l.join(" ");
}

void ModelCheck::run(size_t i, Ctx &ctx)
{
    Lockstep ls(ctx, cfg);
    for (const Op &o : prefix)
        if (!ls.step(o))
            return;
    for (const Op &o : history(m_traces[i]))
        if (!ls.step(o))
            return;
    if (atEnd)
        atEnd(ls);
}

QString ModelCheck::bounds() const
{
    QStringList t;
    for (Transport x : cfg.transports)
        t << transportName(x);
    return QString("%1: slots %2, histories up to %3 operations after a prefix of %4, every transition of the model's reachable graph (%5 states, %6 transitions; identity includes the last %7 operations) replayed%8%9")
        .arg(name, t.join("/"))
        .arg(depth)
        .arg(prefix.size())
        .arg(m_states)
        .arg(m_transitions)
        .arg(memory)
        .arg(cfg.split ? ", bytes delivered one by one" : "")
        .arg(m_cut ? " (CUT at the trace limit)" : "");
}

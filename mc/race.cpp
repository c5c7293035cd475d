#include "race.h"
#include "fix.h"
#include "model.h"

QString actText(const Act &a)
{
    static const char *k[] = {"registerClient", "registerServer", "data", "close", "frame", "disconnect", "hello"};
    return QString("%1.%2(%3,%4)").arg(a.who).arg(k[a.kind]).arg(a.a).arg(a.b);
}

void RaceCheck::prepare(bool)
{
    m_cases.clear();
    std::vector<std::vector<quint8>> merges;
    std::vector<quint8> cur;
    std::vector<size_t> pos(cfg.scripts.size(), 0);
    std::function<void()> rec = [&]() {
        bool any = false;
        for (size_t s = 0; s < cfg.scripts.size(); ++s) {
            if (pos[s] >= cfg.scripts[s].size())
                continue;
            any = true;
            pos[s]++;
            cur.push_back((quint8)s);
            rec();
            cur.pop_back();
            pos[s]--;
        }
        if (!any)
            merges.push_back(cur);
    };
    rec();
    for (auto &m : merges) {
        std::vector<quint8> gaps(m.size(), 0);
        bool full = false;
        std::function<void(size_t, int)> fillGaps = [&](size_t k, int used) {
            if (full)
                return;
            if (k == m.size()) {
                for (int d = 0; d < (cfg.bothOrders ? 2 : 1); ++d) {
                    if (m_cases.size() >= cfg.limit) {
                        full = true;
                        return;
                    }
                    m_cases.push_back({m, gaps, d == 1});
                }
                return;
            }
            for (int g = 0; g < (cfg.settles ? 3 : 2); ++g) {
                if (g && used >= cfg.maxPasses)
                    break;
                gaps[k] = (quint8)g;
                fillGaps(k + 1, used + (g ? 1 : 0));
            }
            gaps[k] = 0;
        };
        fillGaps(0, 0);
        if (full) {
            m_cut = true;
            return;
        }
    }
}

QString RaceCheck::describe(size_t i) const
{
    const Case &c = m_cases[i];
    QStringList l;
    std::vector<size_t> pos(cfg.scripts.size(), 0);
    for (size_t k = 0; k < c.merge.size(); ++k) {
        l << actText(cfg.scripts[c.merge[k]][pos[c.merge[k]]++]);
        if (c.gaps[k])
            l << (c.gaps[k] == 2 ? "rest" : "pass");
    }
    return l.join(" ") + (c.desc ? " [descending]" : " [ascending]");
}

QString RaceCheck::bounds() const
{
    size_t n = 0;
    QStringList t;
    for (auto &s : cfg.scripts)
        n += s.size();
    for (Transport x : cfg.transports)
        t << transportName(x);
    QStringList st;
    for (int k : cfg.stalled)
        st << QString::number(k);
    return QString("%1: all merges of %2 scripts (%3 actions) over endpoints %4, up to %5 event loop passes placed between actions%6%8%7")
        .arg(cfg.name)
        .arg(cfg.scripts.size())
        .arg(n)
        .arg(t.join("/"))
        .arg(cfg.maxPasses)
        .arg(cfg.bothOrders ? ", both orders of serving ready descriptors" : "")
        .arg(m_cut ? " (CUT at the limit)" : "", QString(cfg.settles ? ", or coming to rest" : "") + (st.isEmpty() ? QString() : ", endpoints " + st.join("/") + " not reading meanwhile with output backed up"));
}

void RaceCheck::run(size_t i, Ctx &ctx)
{
    const Case &cs = m_cases[i];
    const int n = (int)cfg.transports.size();
    ServerOptions o;
    for (Transport t : cfg.transports)
        if (t == Tls || t == Wss)
            o.tls = true;
    o.smallBuffers = !cfg.stalled.empty();
    Fix f(ctx, o);
    std::vector<Conn *> ep(n, nullptr);
    std::vector<int> uuid(n, -1), target(n, -1), addr(n, -1);
    std::vector<bool> isServer(n, false), isClient(n, false), preC(n, false), selfClosed(n, false), sawSuccess(n, false), sawError(n, false), regAsked(n, false);
    for (int k = 0; k < n; ++k) {
        if (k < (int)cfg.preServer.size() && cfg.preServer[k] >= 0) {
            ep[k] = f.server(cfg.transports[k], cfg.preServer[k]);
            isServer[k] = true;
            uuid[k] = cfg.preServer[k];
            sawSuccess[k] = true;
        }
    }
    for (int k = 0; k < n; ++k) {
        if (ep[k])
            continue;
        if (k < (int)cfg.preClient.size() && cfg.preClient[k].first >= 0) {
            int srv = cfg.preClient[k].second;
            ep[k] = f.client(cfg.transports[k], cfg.preClient[k].first, uuid[srv], ep[srv], &addr[k]);
            isClient[k] = preC[k] = true;
            uuid[k] = cfg.preClient[k].first;
            target[k] = srv;
            sawSuccess[k] = true;
        } else {
            ep[k] = f.fresh(cfg.transports[k]);
        }
    }
    if (ctx.failed)
        return;
    g_disp->setOrder(cs.desc ? SimDispatcher::Descending : SimDispatcher::Ascending);

    // what was sent
    struct Sent {
        QByteArray up;                 // by a client
        QByteArray down;               // to a client, in order
        QByteArray downAtDisc;         // prefix sent before the first disconnect request for it
        bool discAsked = false, frameAfterDisc = false, framed = false;
        std::vector<int> requests;     // ids sent by this endpoint
        std::vector<Act::Kind> kinds;
    };
    std::vector<Sent> sent(n);
    std::vector<std::vector<Event>> log(n);
    std::vector<size_t> pos(cfg.scripts.size(), 0);
    for (int k : cfg.stalled) {
        ep[k]->peer->link->stalled = true;
        QByteArray fill = cfg.transports[k] == Ws || cfg.transports[k] == Wss ? QByteArray(12000, 'x') : pattern(12000, k);
        if (preC[k]) {
            ep[target[k]]->sendFrame((quint16)addr[k], fill);
            sent[k].down = sent[k].downAtDisc = fill;
            sent[k].framed = true;
        } else {
            for (int c = 0; c < n; ++c)
                if (preC[c] && target[c] == k) {
                    ep[c]->sendRaw(fill);
                    sent[c].up = fill;
                    break;
                }
        }
    }
    f.settle();
    // identities asked for, before anything runs: a client may name a server that registers during the race
    for (auto &s : cfg.scripts)
        for (auto &a : s)
            if (a.kind == Act::RegServer)
                uuid[a.who] = a.a;
    for (size_t k = 0; k < cs.merge.size(); ++k) {
        const Act &a = cfg.scripts[cs.merge[k]][pos[cs.merge[k]]++];
        Conn *c = ep[a.who];
        Sent &st = sent[a.who];
        auto req = [&](const QString &m, const QVariantMap &p) {
            int id = c->nextId++;
            st.requests.push_back(id);
            st.kinds.push_back(a.kind);
            c->sendRaw(c->encode(id, m, p));
        };
        if (c) {
            switch (a.kind) {
            case Act::RegClient:
                uuid[a.who] = a.a;
                target[a.who] = a.b;
                isClient[a.who] = regAsked[a.who] = true;
                req("TunnelProxy.RegisterClient", regClient(uuidOf(a.a), uuidOf(uuid[a.b]), QString("client %1").arg(a.a)));
                break;
            case Act::RegServer:
                isServer[a.who] = regAsked[a.who] = true;
                req("TunnelProxy.RegisterServer", regServer(uuidOf(a.a), QString("server %1").arg(a.a)));
                break;
            case Act::Hello:
                req("RemoteProxy.Hello", QVariantMap());
                break;
            case Act::Data:
                c->sendRaw(payloadOf(a.a));
                st.up += payloadOf(a.a);
                break;
            case Act::Frame:
                c->sendFrame((quint16)addr[a.a], payloadOf(a.b));
                if (target[a.a] == a.who) {
                    if (sent[a.a].discAsked)
                        sent[a.a].frameAfterDisc = true;
                    else
                        sent[a.a].downAtDisc += payloadOf(a.b);
                    sent[a.a].framed = true;
                    sent[a.a].down += payloadOf(a.b);
                }
                break;
            case Act::Disc:
                if (target[a.a] == a.who)
                    sent[a.a].discAsked = true;
                req("TunnelProxy.DisconnectClient", discParams((uint)addr[a.a]));
                break;
            case Act::Close:
                c->peer->pump();
                for (auto &e : c->take())
                    log[a.who].push_back(e);
                f.drop(c);
                ep[a.who] = nullptr;
                selfClosed[a.who] = true;
                break;
            }
        }
        if (cs.gaps[k] == 2) {
            f.settle();
        } else if (cs.gaps[k]) {
            g_disp->pass();
            for (Peer *p : f.w.peers)
                p->pump();
        }
    }
    f.settle();
    for (int k : cfg.stalled)
        if (ep[k])
            ep[k]->peer->link->stalled = false;
    f.settle();
    for (int k = 0; k < n; ++k)
        if (ep[k])
            for (auto &e : ep[k]->take())
                log[k].push_back(e);
    ctx.step();
    for (int k = 0; k < n; ++k)
        for (auto &e : log[k])
            ctx.observe(QByteArray::number(k) + e.canonical());
    auto on = [&](int inv) { return (cfg.invariants & inv) != 0 && !ctx.failed; };

    std::vector<bool> open(n);
    for (int k = 0; k < n; ++k)
        open[k] = ep[k] && !ep[k]->closed();
    for (int k = 0; k < n; ++k) {
        for (auto &e : log[k]) {
            if (e.kind == Event::Garbage) {
                ctx.fail("garbage", QString("undecodable output at endpoint %1").arg(k));
                return;
            }
        }
        // responses
        size_t r = 0;
        for (auto &e : log[k]) {
            if (e.kind != Event::Response)
                continue;
            if (r >= sent[k].requests.size() || e.id != sent[k].requests[r]) {
                if (on(RiResp))
                    ctx.fail("response:order", QString("endpoint %1: response id %2 out of order or surplus").arg(k).arg(e.id));
                continue;
            }
            Act::Kind kd = sent[k].kinds[r];
            if (kd == Act::RegClient || kd == Act::RegServer) {
                if (e.ok && e.error == "TunnelProxyErrorNoError")
                    sawSuccess[k] = true;
                else
                    sawError[k] = true;
            }
            r++;
        }
        if (on(RiResp) && open[k] && r < sent[k].requests.size())
            ctx.fail("response:missing", QString("endpoint %1: %2 requests, %3 responses").arg(k).arg(sent[k].requests.size()).arg(r));
    }
    // identities
    if (on(RiUnique)) {
        for (int a = 0; a < n; ++a)
            for (int b = a + 1; b < n; ++b)
                if (uuid[a] >= 0 && uuid[a] == uuid[b] && open[a] && open[b] && sawSuccess[a] && sawSuccess[b])
                    ctx.fail("uuid:shared", QString("endpoints %1 and %2 are both registered under one identity").arg(a).arg(b));
    }
    for (int s = 0; s < n && !ctx.failed; ++s) {
        if (!isServer[s])
            continue;
        // walk the server's log
        struct Seen {
            QUuid who;
            bool live = true;
            QByteArray data;
            int disconnects = 0;
        };
        QMap<int, std::vector<Seen>> byAddr;
        QMap<QUuid, int> connects;
        for (int c = 0; c < n; ++c)
            if (preC[c] && target[c] == s) {
                byAddr[addr[c]].push_back({uuidOf(uuid[c]), true, QByteArray(), 0});
                connects[uuidOf(uuid[c])]++;
            }
        for (auto &e : log[s]) {
            if (e.kind == Event::Notification && e.method == "TunnelProxy.ClientConnected") {
                int a = e.params.value("socketAddress").toInt();
                QUuid u = e.params.value("clientUuid").toUuid();
                connects[u]++;
                if (on(RiUnique) && (a <= 0 || a >= 0xFFFF))
                    ctx.fail("address:reserved", QString("tunnel address %1").arg(a));
                if (on(RiUnique) && byAddr.contains(a) && byAddr[a].back().live)
                    ctx.fail("address:duplicate", QString("tunnel address %1 given twice").arg(a));
                byAddr[a].push_back({u, true, QByteArray(), 0});
                for (int c = 0; c < n; ++c)
                    if (isClient[c] && !preC[c] && target[c] == s && uuidOf(uuid[c]) == u && (sawSuccess[c] || !ep[c]) && addr[c] < 0)
                        addr[c] = a;
            } else if (e.kind == Event::Notification && e.method == "TunnelProxy.ClientDisconnected") {
                int a = e.params.value("socketAddress").toInt();
                if (!byAddr.contains(a) || !byAddr[a].back().live) {
                    if (on(RiNotifyOnce))
                        ctx.fail("disconnected:surplus", QString("ClientDisconnected for address %1 that is not connected").arg(a));
                    continue;
                }
                byAddr[a].back().live = false;
                byAddr[a].back().disconnects++;
            } else if (e.kind == Event::Data) {
                if (!byAddr.contains(e.addr) || !byAddr[e.addr].back().live) {
                    if (on(RiLeak) || on(RiUp))
                        ctx.fail("data:unannounced", QString("data of address %1 outside its connection").arg(e.addr));
                    continue;
                }
                byAddr[e.addr].back().data += e.data;
            }
        }
        if (!open[s])
            continue;
        for (int c = 0; c < n && !ctx.failed; ++c) {
            if (!isClient[c] || target[c] != s || sawError[c])
                continue;
            QUuid u = uuidOf(uuid[c]);
            bool unknown = !sawSuccess[c]; // went away without having read its answer
            int total = 0, maybe = 0;
            for (int k = 0; k < n; ++k)
                if (isClient[k] && target[k] == s && uuid[k] == uuid[c]) {
                    total += sawSuccess[k] ? 1 : 0;
                    maybe += !sawSuccess[k] && !sawError[k] ? 1 : 0;
                }
            if (on(RiNotifyOnce) && (connects[u] < total || connects[u] > total + maybe))
                ctx.fail("connected:count", QString("client %1 was announced %2 times").arg(c).arg(connects[u]));
            if (unknown && connects[u] == 0)
                continue;
            const Seen *seen = nullptr;
            for (auto &v : byAddr)
                for (auto &x : v)
                    if (x.who == u)
                        seen = &x; // the last one
            if (!seen)
                continue;
            if (on(RiNotifyOnce) && total + maybe == 1) {
                if (!open[c] && seen->disconnects != 1)
                    ctx.fail("disconnected:missing", QString("client %1 is gone and the server was told %2 times").arg(c).arg(seen->disconnects));
                if (open[c] && seen->disconnects != 0)
                    ctx.fail("disconnected:early", QString("client %1 is still there but was reported gone").arg(c));
            }
            if (on(RiUp) && preC[c]) {
                bool complete = !sent[c].discAsked && !(selfClosed[c] && sent[c].framed);
                if (complete ? seen->data != sent[c].up : !sent[c].up.startsWith(seen->data))
                    ctx.fail("up:bytes", QString("client %1 sent %2, the server received %3").arg(c).arg(QString(hex(sent[c].up)), QString(hex(seen->data))));
            }
        }
    }
    for (int c = 0; c < n && !ctx.failed; ++c) {
        if (!preC[c])
            continue;
        int s = target[c];
        QByteArray got = Fix::data(log[c]);
        if (on(RiDown)) {
            bool must = !selfClosed[c] && (open[c] || sent[c].discAsked);
            const QByteArray &want = open[c] ? sent[c].down : sent[c].downAtDisc;
            if (must ? (open[c] ? got != want : !(got.startsWith(want) && sent[c].down.startsWith(got))) : !sent[c].down.startsWith(got))
                ctx.fail("down:bytes", QString("to client %1 was sent %2, it received %3").arg(c).arg(QString(hex(sent[c].down)), QString(hex(got))));
            bool cross = false; // bytes on their way to an endpoint that is gone: the write error may cut the rest off
            for (int k = 0; k < n; ++k)
                cross = cross || (target[k] == s && (!sent[k].up.isEmpty() || selfClosed[k]));
            if (!must && !cross && !selfClosed[c] && selfClosed[s] && got != sent[c].down)
                ctx.fail("down:tail", QString("the server's last bytes for client %1 were lost: sent %2, received %3").arg(c).arg(QString(hex(sent[c].down)), QString(hex(got))));
        }
        if (on(RiLeak))
            for (auto &e : log[c])
                if (e.kind != Event::Data)
                    ctx.fail("leak", QString("client %1 received something that is not tunnel data").arg(c));
    }
    if (on(RiClose)) {
        for (int k = 0; k < n && !ctx.failed; ++k) {
            if (selfClosed[k])
                continue;
            bool serverGone = isClient[k] && sawSuccess[k] && target[k] >= 0 && !open[target[k]];
            bool expectClosed = sawError[k] || (isClient[k] && serverGone) || sent[k].discAsked;
            if (isClient[k] && !preC[k] && target[k] >= 0 && !open[target[k]] && !open[k])
                continue; // its server went away while it registered
            if (expectClosed && open[k])
                ctx.fail("close:missing", QString("endpoint %1 should have been closed").arg(k));
            if (!expectClosed && !open[k])
                ctx.fail("close:unexpected", QString("endpoint %1 was closed").arg(k));
        }
    }
    if (on(RiMonitor)) {
        int total = 0, servers = 0, clients = 0;
        for (int k = 0; k < n; ++k) {
            total += open[k];
            servers += open[k] && isServer[k] && sawSuccess[k];
            clients += open[k] && isClient[k] && sawSuccess[k];
        }
        bool okM = false;
        QVariantMap m = f.w.monitor(true, &okM).value("tunnelProxyStatistic").toMap();
        if (!okM || m.value("totalClientCount").toInt() != total || m.value("serverConnectionsCount").toInt() != servers || m.value("clientConnectionsCount").toInt() != clients)
            ctx.fail("monitor:counts", QString("monitor: %1/%2/%3, actual %4/%5/%6")
                                           .arg(m.value("totalClientCount").toInt())
                                           .arg(m.value("serverConnectionsCount").toInt())
                                           .arg(m.value("clientConnectionsCount").toInt())
                                           .arg(total)
                                           .arg(servers)
                                           .arg(clients));
        QVariantList l = m.value("tunnelConnections").toList();
        int sum = 0;
        for (auto &v : l)
            sum += v.toMap().value("clientConnections").toList().size();
        if (!ctx.failed && (l.size() != servers || sum != clients))
            ctx.fail("monitor:list", QString("monitor lists %1 servers with %2 clients, actual %3/%4").arg(l.size()).arg(sum).arg(servers).arg(clients));
    }
}

static Act RA(Act::Kind k, int who, int a = 0, int b = 0) { return {k, who, a, b}; }

// Races with a peer that does not read: what the proxy closes stays half open with output waiting
void addSlowRaces(MultiCheck *m, int inv)
{
    for (auto t : {std::vector<Transport>{Tcp, Tcp, Tcp, Tcp}, std::vector<Transport>{Unix, Unix, Unix, Unix}, std::vector<Transport>{Tcp, Ws, Unix, Tcp}}) {
        RaceConfig r;
        r.transports = t;
        r.preServer = {1, -1, -1, -1};
        r.preClient = {{-1, -1}, {11, 0}, {12, 0}, {-1, -1}};
        r.invariants = inv;
        r.settles = true;
        r.maxPasses = g_thorough ? 4 : 2;
        r.stalled = {1};
        r.name = "the server disconnects a slow client, which talks on and leaves";
        r.scripts = {{RA(Act::Disc, 0, 1), RA(Act::Disc, 0, 1)}, {RA(Act::Data, 1, 0), RA(Act::Close, 1)}, {RA(Act::RegClient, 3, 13, 0)}};
        m->add("slow reader: disconnect", new RaceCheck(r));
        r.name = "the server sends to and disconnects a slow client while another one leaves";
        r.scripts = {{RA(Act::Frame, 0, 1, 0), RA(Act::Disc, 0, 1), RA(Act::Frame, 0, 2, 1)}, {RA(Act::Data, 2, 0), RA(Act::Close, 2)}};
        m->add("slow reader: disconnect", new RaceCheck(r));
        r.name = "the server of a slow client goes and comes back, and its client does too";
        r.transports.push_back(t[0]);
        r.preServer.push_back(-1);
        r.preClient.push_back({-1, -1});
        r.scripts = {{RA(Act::Close, 0), RA(Act::RegServer, 3, 1), RA(Act::RegClient, 4, 11, 3)}, {RA(Act::Data, 1, 0)}};
        r.maxPasses = g_thorough ? 4 : 3;
        m->add("slow reader: server loss", new RaceCheck(r));
        r.transports.pop_back();
        r.preServer.pop_back();
        r.preClient.pop_back();
        r.stalled = {0};
        r.name = "clients come, send and leave at a slow server";
        r.scripts = {{RA(Act::RegClient, 3, 13, 0), RA(Act::Close, 3)}, {RA(Act::Data, 2, 0), RA(Act::Close, 2)}, {RA(Act::Disc, 0, 1)}};
        r.maxPasses = g_thorough ? 4 : 2;
        m->add("slow reader: server", new RaceCheck(r));
    }
}

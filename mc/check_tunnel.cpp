// C01 client->server bytes, C02 server->client bytes, C03 isolation
#include "fix.h"
#include "crowd.h"
#include "model.h"
#include "race.h"

static const char *kSpecial = "\xC0\xDB\xDC\xDD\x00\xFF{}\n";
static const int kSpecialN = 9;

// every string over the special bytes up to a length, longest last
static std::vector<QByteArray> specialStrings(int maxLen)
{
    std::vector<QByteArray> out, cur{QByteArray()};
    for (int l = 1; l <= maxLen; ++l) {
        std::vector<QByteArray> nx;
        for (auto &p : cur)
            for (int k = 0; k < kSpecialN; ++k)
                nx.push_back(p + QByteArray(kSpecial + k, 1));
        out.insert(out.end(), nx.begin(), nx.end());
        cur = nx;
    }
    return out;
}

// every ASCII character alone, first, in the middle and last
static std::vector<QByteArray> controlTexts()
{
    std::vector<QByteArray> v;
    QByteArray all;
    for (int c = 0; c < 128; ++c) {
        QByteArray b(1, (char)c);
        all += b;
        v.push_back(b);
        v.push_back(b + "x");
        v.push_back("x" + b + "y");
        v.push_back("xy" + b);
    }
    v.push_back(all);
    v.push_back(QByteArray(5, 0));
    return v;
}

static QByteArray utf8Sample(int n)
{
    static const char *parts[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\"", "\\", "\n", "}", "{", "\x7f", "\t", "\xef\xbb\xbf", "\xc3\x80", "\xef\xbf\xbd"};
    QByteArray d;
    for (int i = 0; d.size() < n; ++i)
        d += parts[(i * 5 + i / 14) % 14];
    return d;
}

typedef std::function<void(Ctx &, Transport, Transport)> PairFn;
static void forPairs(ListCheck &l, const QString &name, bool wsClient, PairFn fn)
{
    for (Transport s : kStream)
        for (Transport c : kAll) {
            if (!compatible(s, c) || ((c == Ws || c == Wss) && !wsClient))
                continue;
            l.add(QString("%1, server on %2, client on %3").arg(name, transportName(s), transportName(c)), [=](Ctx &x) { fn(x, s, c); });
        }
}

// ---- C01 ----------------------------------------------------------------------------------------
static std::vector<Op> dataAlphabet(const MState &m, bool up, bool down, int payloads)
{
    std::vector<Op> ops;
    for (int i = 0; i < m.n; ++i) {
        if (m.s[i].role == Client && up)
            for (int p = 0; p < payloads; ++p)
                ops.push_back({OpData, i, p, 0});
        if (m.s[i].role == Client && down)
            for (int p = 0; p < payloads; ++p)
                ops.push_back({OpFrame, m.s[i].server, i, p});
        if (m.s[i].role == Client)
            ops.push_back({OpClose, i, 0, 0});
        if (m.s[i].role == Gone && i > 0)
            ops.push_back({OpOpen, i, 0, 0});
        if (m.s[i].role == Fresh && i > 0)
            ops.push_back({OpRegClient, i, 10 + i, 1});
    }
    return ops;
}
static std::vector<Op> threeUp()
{
    return {{OpOpen, 0, 0, 0}, {OpRegServer, 0, 1, 0}, {OpOpen, 1, 0, 0}, {OpRegClient, 1, 11, 1}, {OpOpen, 2, 0, 0}, {OpRegClient, 2, 12, 1}};
}
static Check *seqCheck(const QString &name, std::vector<Transport> t, int cats, bool up, bool down, int depthQ, int depthT, int payloads, bool split = false)
{
    LockstepConfig c;
    c.transports = t;
    for (Transport x : t)
        if (x == Tls || x == Wss)
            c.server.tls = true;
    c.categories = cats;
    c.split = split;
    ModelCheck *m = new ModelCheck(name, c, [=](const MState &s) { return dataAlphabet(s, up, down, payloads); }, g_thorough ? depthT : depthQ, 2);
    m->prefix = threeUp();
    return m;
}

static RaceConfig raceBase(const QString &name, std::vector<Transport> t, int inv)
{
    // endpoint 0: server 1; endpoints 1, 2: its clients 11, 12
    RaceConfig r;
    r.name = name;
    r.transports = t;
    r.preServer = {1, -1, -1};
    r.preClient = {{-1, -1}, {11, 0}, {12, 0}};
    r.invariants = inv;
    r.maxPasses = g_thorough ? 4 : 2;
    return r;
}
static Act A(Act::Kind k, int who, int a = 0, int b = 0) { return {k, who, a, b}; }


// both registrations arrive in two pieces, cut at every position; the first bytes afterwards are tunnel data
static void afterCutRegistration(ListCheck &l, bool upwards)
{
    for (Transport t : kStream)
        for (int who = 0; who < 2; ++who)
            l.add(QString("first bytes behind a %1 registration cut anywhere, on %2").arg(who ? "client" : "server", transportName(t)), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                QByteArray rs = ref::request(1, "TunnelProxy.RegisterServer", regServer(uuidOf(1), "}\"{"));
                QByteArray rc = ref::request(1, "TunnelProxy.RegisterClient", regClient(uuidOf(11), uuidOf(1), "}\"{"));
                int n = (who ? rc : rs).size();
                for (int cut = 1; cut < n && !x.failed; ++cut) {
                    Conn *srv = f.fresh(t);
                    srv->sendRaw(who ? rs : rs.left(cut));
                    f.settle();
                    if (!who)
                        srv->sendRaw(rs.mid(cut));
                    f.settle();
                    srv->pending = srv->take();
                    Conn *cl = f.fresh(t);
                    cl->sendRaw(who ? rc.left(cut) : rc);
                    f.settle();
                    if (who)
                        cl->sendRaw(rc.mid(cut));
                    f.settle();
                    int a = -1;
                    bool okS = false, okC = false;
                    QString what = QString("cut at %1").arg(cut);
                    for (auto &e : srv->take()) {
                        okS = okS || (e.kind == Event::Response && e.ok);
                        if (e.kind == Event::Notification)
                            a = e.params.value("socketAddress").toInt();
                        if (e.kind == Event::Data)
                            return x.fail("cut:bytes", QString("cut at %1: the server received %2 though the client sent no payload").arg(cut).arg(QString(hex(e.data))));
                    }
                    for (auto &e : cl->take())
                        okC = okC || (e.kind == Event::Response && e.ok);
                    if (!okS || !okC || a < 0)
                        ; // refused registrations are the business of other properties
                    else if (upwards ? !(f.up(cl, srv, a, "\nfirst", what) && f.up(cl, srv, a, "second\n", what)) : !(f.down(cl, srv, a, "\nfirst", what) && f.down(cl, srv, a, "second\n", what)))
                        return;
                    f.drop(cl);
                    f.settle();
                    f.drop(srv);
                    f.settle();
                }
            });
}

// The first payload of a client, behind a registration that ended with a newline or not (then one newline may belong to it).
static void firstPayload(ListCheck &l)
{
    for (Transport t : kStream)
        for (int newline = 0; newline < 2; ++newline)
            for (int part = 0; part < 4; ++part)
                l.add(QString("every first payload of one byte or two of a catalogue, behind a registration %1 newline, on %2, part %3").arg(newline ? "with a" : "without").arg(transportName(t)).arg(part), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    Conn *srv = f.server(t, 1);
                    QByteArrayList firsts;
                    for (int b = 0; b < 256; ++b)
                        firsts << QByteArray(1, (char)b);
                    QByteArray some("\0\t\n\r \x0b\"{}[]\\a\xC0\xDB", 15);
                    for (char p : some)
                        for (char q : some)
                            firsts << QByteArray(1, p) + q;
                    for (int i = part; i < firsts.size() && !x.failed; i += 4) {
                        QByteArray d = firsts[i];
                        if (!newline && d.startsWith('\n'))
                            continue;
                        QByteArray rq = ref::request(1, "TunnelProxy.RegisterClient", regClient(uuidOf(11), uuidOf(1), "cl")).trimmed();
                        Conn *cl = f.fresh(t);
                        cl->sendRaw(newline ? rq + "\n" : rq);
                        f.settle();
                        bool ok = false;
                        for (auto &e : cl->take())
                            ok = ok || (e.kind == Event::Response && e.ok);
                        int a = f.announced(srv, 11);
                        if (ok && a >= 0) {
                            cl->mode = Conn::Raw;
                            f.up(cl, srv, a, d, "first payload");
                        }
                        f.drop(cl);
                        f.settle();
                        srv->take();
                    }
                });
}

static void c01List(ListCheck &l, bool thorough)
{
    firstPayload(l);
    afterCutRegistration(l, true);
    forPairs(l, "every byte value", false, [](Ctx &x, Transport s, Transport c) {
        Fix f(x, optsFor({s, c}));
        int a = -1;
        Conn *srv = f.server(s, 1);
        Conn *cl = f.client(c, 11, 1, srv, &a);
        for (int b = 0; b < 256 && !x.failed; ++b)
            f.up(cl, srv, a, QByteArray(1, (char)b), QString("byte %1").arg(b));
        QByteArray all;
        for (int b = 0; b < 256; ++b)
            all.append((char)b);
        if (!x.failed)
            f.up(cl, srv, a, all, "all bytes");
        if (!x.failed)
            f.down(cl, srv, a, "alive", "afterwards");
    });
    const int len = thorough ? 4 : 3;
    for (int part = 0; part < 8; ++part)
        l.add(QString("all strings up to %1 over C0 DB DC DD 00 FF { } LF, part %2").arg(len).arg(part), [=](Ctx &x) {
            Fix f(x);
            int a = -1;
            Conn *srv = f.server(Tcp, 1);
            Conn *cl = f.client(Tcp, 11, 1, srv, &a);
            auto all = specialStrings(len);
            for (size_t k = part; k < all.size() && !x.failed; k += 8)
                f.up(cl, srv, a, all[k], "special string");
        });
    for (int size : {2, 255, 256, 1023, 4096, 10239, 10240, 10241, 16384, 65535, 65536, 65537, 200000, 1000000}) {
        if (size > 200000 && !thorough)
            continue;
        forPairs(l, QString("%1 bytes").arg(size), false, [=](Ctx &x, Transport s, Transport c) {
            Fix f(x, optsFor({s, c}));
            int a = -1;
            Conn *srv = f.server(s, 1);
            Conn *cl = f.client(c, 11, 1, srv, &a);
            f.up(cl, srv, a, pattern(size, 1), "block");
            if (!x.failed)
                f.works(cl, srv, a, "after the block");
        });
        forPairs(l, QString("%1 bytes of C0 to a server that does not read for a while").arg(size), false, [=](Ctx &x, Transport s, Transport c) {
            Fix f(x, optsFor({s, c}));
            int a = -1;
            Conn *srv = f.server(s, 1);
            Conn *cl = f.client(c, 11, 1, srv, &a);
            srv->peer->link->stalled = true;
            QByteArray d(size, (char)0xC0);
            cl->sendRaw(d);
            f.settle();
            cl->sendRaw("tail");
            f.settle();
            srv->peer->link->stalled = false;
            f.settle();
            f.gotUp(srv, a, d + "tail", "stalled receiver");
        });
        forPairs(l, QString("%1 bytes and gone").arg(size), false, [=](Ctx &x, Transport s, Transport c) {
            for (int passes = 0; passes < 4 && !x.failed; ++passes) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                if (x.failed)
                    return;
                QByteArray d = pattern(size, 2);
                cl->sendRaw(d);
                for (int k = 0; k < 200000 && cl->peer->link->unsent() > 0; ++k) {
                    g_disp->pass();
                    cl->peer->pump();
                    srv->peer->pump();
                }
                for (int k = 0; k < passes; ++k)
                    g_disp->pass();
                if (c == Tls) {
                    f.settle(); // the TLS close alert must follow the data
                }
                f.drop(cl);
                f.settle();
                std::vector<Event> ev = srv->take();
                x.step();
                if (Fix::data(ev, a) != d)
                    x.fail("up:lastbytes", QString("the client sent %1 bytes and closed, the server received %2").arg(size).arg(Fix::data(ev, a).size()));
                else if (ev.empty() || ev.back().kind != Event::Notification)
                    x.fail("up:order", "the disconnect notification did not come after the data");
            }
        });
    }
    // a receiver that is far behind
    for (int mb : {2, 5, 20, 70}) {
        if (mb > 20 && !thorough)
            continue;
        forPairs(l, QString("%1 MB to a server that does not read for a while").arg(mb), true, [=](Ctx &x, Transport s, Transport c) {
            if (mb > 5 && (s == Tls || c == Wss))
                return;
            Fix f(x, optsFor({s, c}));
            int a = -1, a2 = -1;
            Conn *srv = f.server(s, 1), *srv2 = f.server(s, 2);
            Conn *cl = f.client(c, 11, 1, srv, &a);
            Conn *other = f.client(c, 12, 2, srv2, &a2);
            if (x.failed)
                return;
            srv->peer->link->stalled = true;
            QByteArray d;
            bool text = c == Ws || c == Wss;
            for (int k = 0; k < mb * 4; ++k) {
                QByteArray b = text ? QByteArray(262144, (char)('a' + k % 26)) : pattern(262144, k);
                cl->sendRaw(b);
                d += b;
                f.settle();
            }
            if (!f.works(other, srv2, a2, "meanwhile"))
                return;
            srv->peer->link->stalled = false;
            f.settle();
            if (f.gotUp(srv, a, d, "the server reads again"))
                f.works(cl, srv, a, "afterwards");
        });
    }
    // interleaved chunks of two clients, with and without the loop running in between
    const int na = 3, nb = 3;
    for (int mask = 0; mask < (1 << (na + nb)); ++mask) {
        if (__builtin_popcount(mask) != na)
            continue;
        l.add(QString("two clients' chunks interleaved, order %1, all placements of loop passes").arg(mask), [=](Ctx &x) {
            for (int gaps = 0; gaps < (1 << (na + nb)) && !x.failed; ++gaps) {
                Fix f(x);
                int a1 = -1, a2 = -1;
                Conn *srv = f.server(Tcp, 1);
                Conn *c1 = f.client(Tcp, 11, 1, srv, &a1);
                Conn *c2 = f.client(Unix, 12, 1, srv, &a2);
                if (x.failed)
                    return;
                QByteArray w1, w2;
                int k1 = 0, k2 = 0;
                static const QByteArray chunks[3] = {QByteArray("\xC0", 1), QByteArray("ab\xDB\xDC", 4), QByteArray("\xDB", 1)};
                for (int k = 0; k < na + nb; ++k) {
                    if (mask >> k & 1) {
                        c1->sendRaw(chunks[k1]);
                        w1 += chunks[k1++];
                    } else {
                        c2->sendRaw(chunks[(k2 + 1) % 3]);
                        w2 += chunks[(k2 + 1) % 3];
                        k2++;
                    }
                    if (gaps >> k & 1)
                        g_disp->pass();
                }
                f.settle();
                std::vector<Event> ev = srv->take();
                x.step();
                if (Fix::data(ev, a1) != w1 || Fix::data(ev, a2) != w2 || Fix::data(ev).size() != w1.size() + w2.size())
                    x.fail("up:mixed", QString("client 1 sent %1, arrived %2; client 2 sent %3, arrived %4").arg(QString(hex(w1)), QString(hex(Fix::data(ev, a1))), QString(hex(w2)), QString(hex(Fix::data(ev, a2)))));
            }
        });
    }
    // text over web sockets
    for (Transport c : {Ws, Wss})
        for (Transport s : kStream) {
            if (!compatible(s, c))
                continue;
            l.add(QString("UTF-8 text, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                for (int n : {1, 2, 3, 4, 5, 7, 125, 126, 127, 1000, 65535, 65536, 70000})
                    if (!x.failed)
                        f.up(cl, srv, a, utf8Sample(n), QString("text of %1 bytes").arg(n));
                // fragmented message with a control frame in between
                if (!x.failed) {
                    QByteArray t = utf8Sample(60);
                    cl->peer->sendWs(1, t.left(20), false);
                    f.settle();
                    cl->peer->sendWs(9, "ping");
                    f.settle();
                    cl->peer->sendWs(0, t.mid(20, 20), false);
                    cl->peer->sendWs(0, t.mid(40), true);
                    f.settle();
                    f.gotUp(srv, a, t, "fragmented text");
                }
            });
            l.add(QString("control characters, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                for (const QByteArray &t : controlTexts())
                    if (!x.failed)
                        f.up(cl, srv, a, t, "text " + QString(hex(t)));
            });
            l.add(QString("text beginning with U+FEFF, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                cl->sendRaw("\xef\xbb\xbf" "text");
                f.settle();
                if (Fix::data(srv->take()) != QByteArray("\xef\xbb\xbf" "text"))
                    x.fail("ws-byte-order-mark", "a byte order mark at the beginning of a web socket client's text is lost");
            });
            l.add(QString("bytes that are not UTF-8, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                cl->peer->sendWs(2, QByteArray("\xC0\xFF\x00\x80", 4));
                f.settle();
                if (Fix::data(srv->take()) != QByteArray("\xC0\xFF\x00\x80", 4))
                    x.fail("ws-non-utf8-payload", "a payload that is not UTF-8 text cannot be sent over a web socket tunnel");
            });
        }
}

static Check *makeC01()
{
    MultiCheck *m = new MultiCheck;
    m->add("histories tcp", seqCheck("one server, two clients, data of 6 kinds, reconnects", {Tcp, Tcp, Tcp}, CatUp | CatGarbage | CatLivelock, true, false, 3, 4, payloadCount()));
    m->add("histories mixed", seqCheck("one server, two clients, data of 6 kinds, reconnects", {Unix, Tcp, Unix}, CatUp | CatGarbage | CatLivelock, true, false, 2, 4, payloadCount()));
    m->add("histories tls", seqCheck("one server, two clients, data of 6 kinds, reconnects", {Tls, Tls, Unix}, CatUp | CatGarbage | CatLivelock, true, false, 2, 3, payloadCount()));
    m->add("histories bytewise", seqCheck("one server, two clients, data of 6 kinds", {Tcp, Unix, Tcp}, CatUp | CatGarbage | CatLivelock, true, false, 2, 3, payloadCount(), true));
    addSlowRaces(m, RiUp);
    for (auto t : {std::vector<Transport>{Tcp, Tcp, Tcp}, std::vector<Transport>{Unix, Unix, Tcp}}) {
        RaceConfig r = raceBase("both clients send and leave", t, RiUp);
        r.scripts = {{A(Act::Data, 1, 0), A(Act::Data, 1, 1), A(Act::Close, 1)}, {A(Act::Data, 2, 4), A(Act::Close, 2)}};
        m->add("race send/close", new RaceCheck(r));
        RaceConfig q = raceBase("clients send while the server disconnects one", t, RiUp);
        q.scripts = {{A(Act::Data, 1, 0), A(Act::Data, 1, 1)}, {A(Act::Data, 2, 4)}, {A(Act::Disc, 0, 2), A(Act::Hello, 0)}};
        m->add("race send/disconnect", new RaceCheck(q));
    }
    m->add("payloads", new ListCheck("every byte value, all strings over the framing bytes up to the length given, sizes to 200 kB (1 MB thorough), stalled server, data followed by close, two clients' chunks in all orders with all placements of passes, UTF-8 over web sockets", c01List));
    return m;
}
static CheckReg rC01("C01", makeC01);

// ---- C02 ----------------------------------------------------------------------------------------
static void c02List(ListCheck &l, bool thorough)
{
    afterCutRegistration(l, false);
    forPairs(l, "every byte value", false, [](Ctx &x, Transport s, Transport c) {
        Fix f(x, optsFor({s, c}));
        int a = -1;
        Conn *srv = f.server(s, 1);
        Conn *cl = f.client(c, 11, 1, srv, &a);
        for (int b = 0; b < 256 && !x.failed; ++b)
            f.down(cl, srv, a, QByteArray(1, (char)b), QString("byte %1").arg(b));
        QByteArray all;
        for (int b = 0; b < 256; ++b)
            all.append((char)b);
        if (!x.failed)
            f.down(cl, srv, a, all, "all bytes");
        if (!x.failed)
            f.up(cl, srv, a, "alive", "afterwards");
    });
    const int len = thorough ? 4 : 3;
    for (int part = 0; part < 8; ++part)
        l.add(QString("all strings up to %1 over C0 DB DC DD 00 FF { } LF, part %2").arg(len).arg(part), [=](Ctx &x) {
            Fix f(x);
            int a = -1;
            Conn *srv = f.server(Tcp, 1);
            Conn *cl = f.client(Tcp, 11, 1, srv, &a);
            auto all = specialStrings(len);
            for (size_t k = part; k < all.size() && !x.failed; k += 8)
                f.down(cl, srv, a, all[k], "special string");
        });
    for (int size : {2, 255, 256, 1023, 4096, 10239, 10240, 10241, 16384, 65535, 65536, 65537, 200000, 1000000}) {
        if (size > 200000 && !thorough)
            continue;
        forPairs(l, QString("%1 bytes, the client not reading for a while").arg(size), false, [=](Ctx &x, Transport s, Transport c) {
            Fix f(x, optsFor({s, c}));
            int a = -1, a2 = -1;
            Conn *srv = f.server(s, 1);
            Conn *cl = f.client(c, 11, 1, srv, &a);
            Conn *other = f.client(c, 12, 1, srv, &a2);
            if (x.failed)
                return;
            cl->peer->link->stalled = true;
            QByteArray d = pattern(size, 4);
            srv->sendFrame((quint16)a, d);
            f.settle();
            f.down(other, srv, a2, "meanwhile", "other client while one is stalled");
            srv->sendFrame((quint16)a, "tail");
            f.settle();
            cl->peer->link->stalled = false;
            f.settle();
            if (!x.failed)
                f.gotDown(cl, d + "tail", "block");
            if (!x.failed)
                f.works(cl, srv, a, "after the block");
        });
    }
    // many frames in one read
    forPairs(l, "1 to 2000 short frames at once", false, [](Ctx &x, Transport s, Transport c) {
        Fix f(x, optsFor({s, c}));
        int a1 = -1, a2 = -1;
        Conn *srv = f.server(s, 1);
        Conn *c1 = f.client(c, 11, 1, srv, &a1);
        Conn *c2 = f.client(c, 12, 1, srv, &a2);
        for (int n : {1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000}) {
            QByteArray all, to1, to2;
            for (int i = 0; i < n; ++i) {
                QByteArray d = QByteArray::number(i) + ";";
                all += ref::frame((quint16)(i % 3 == 1 ? a2 : a1), d);
                (i % 3 == 1 ? to2 : to1) += d;
            }
            if (x.failed)
                return;
            srv->sendRaw(all);
            f.settle();
            f.gotDown(c1, to1, QString("%1 frames").arg(n));
            if (!x.failed && n > 1)
                f.gotDown(c2, to2, QString("%1 frames").arg(n));
        }
    });
    for (int size : {1500000, 3000000})
        l.add(QString("one frame of %1 bytes").arg(size), [=](Ctx &x) {
            Fix f(x);
            int a = -1;
            Conn *srv = f.server(Tcp, 1);
            Conn *cl = f.client(Tcp, 11, 1, srv, &a);
            if (x.failed)
                return;
            srv->sendFrame((quint16)a, pattern(size, 4));
            f.settle();
            f.gotDown(cl, pattern(size, 4), "block");
            if (!x.failed)
                f.works(cl, srv, a, "after the block");
        });
    // a stream of frames for two clients plus a request, cut at every position (and every pair, thorough)
    struct Stream {
        QByteArray bytes, to1, to2;
    };
    auto stream = [](int a1, int a2) {
        Stream s;
        auto add = [&](int a, const QByteArray &p) {
            s.bytes += ref::frame((quint16)a, p);
            (a == a1 ? s.to1 : s.to2) += p;
        };
        add(a1, QByteArray("\xC0\xDB", 2));
        add(a2, "two");
        s.bytes += ref::frame(0, ref::request(77, "RemoteProxy.Hello"));
        add(a1, QByteArray("\x00\x00", 2));
        s.bytes += QByteArray(1, (char)0xC0); // a leading END is allowed
        add(a2, QByteArray("\xDB\xDC\xDB\xDD", 4));
        add(a1, "one");
        return s;
    };
    const int total = stream(1, 2).bytes.size();
    auto cut = [=](Ctx &x, Transport t, std::vector<int> at, bool passOnly) {
        Fix f(x, optsFor({t}));
        int a1 = -1, a2 = -1;
        Conn *srv = f.server(t, 1);
        Conn *c1 = f.client(Unix, 11, 1, srv, &a1);
        Conn *c2 = f.client(Unix, 12, 1, srv, &a2);
        if (x.failed)
            return;
        Stream s = stream(a1, a2);
        int p = 0;
        at.push_back(s.bytes.size());
        for (int e : at) {
            srv->sendRaw(s.bytes.mid(p, e - p));
            p = e;
            if (passOnly)
                g_disp->pass();
            else
                f.settle();
        }
        f.settle();
        f.gotDown(c1, s.to1, "cut stream, client 1");
        if (!x.failed)
            f.gotDown(c2, s.to2, "cut stream, client 2");
        std::vector<Event> ev = srv->take();
        if (!x.failed && (ev.size() != 1 || ev[0].kind != Event::Response || ev[0].id != 77))
            x.fail("down:request", "the request between the frames was not answered exactly once");
    };
    for (Transport t : kStream)
        for (int k = 1; k < total; ++k)
            l.add(QString("frame stream cut at %1 on %2").arg(k).arg(transportName(t)), [=](Ctx &x) { cut(x, t, {k}, false); });
    for (int k = 1; k < total; ++k)
        for (int j = k + 1; j < total; j += thorough ? 1 : 5)
            l.add(QString("frame stream cut at %1 and %2").arg(k).arg(j), [=](Ctx &x) { cut(x, Tcp, {k, j}, true); });
    for (Transport t : kStream)
        l.add(QString("frame stream byte by byte on %1").arg(transportName(t)), [=](Ctx &x) {
            std::vector<int> at;
            for (int k = 1; k < total; ++k)
                at.push_back(k);
            cut(x, t, at, false);
        });
    // frames for others, for nobody and without sense between those for the clients
    enum Part { One, Two, Gone, Nobody, Last, Ask, Damaged, Ends, Empty, PartCount };
    static const char *partNames[] = {"client 1", "client 2", "a client that is gone", "nobody", "0xFFFF", "Ping", "a damaged one", "two ends", "client 1, empty"};
    auto parts = [=](Ctx &x, Transport t, std::vector<int> seq) {
        for (int form = 0; form < 4 && !x.failed; ++form) {
            Fix f(x, optsFor({t}));
            int a1 = -1, a2 = -1, a3 = -1, a4 = -1;
            Conn *srv = f.server(t, 1), *srv2 = f.server(t, 2);
            Conn *c1 = f.client(Unix, 11, 1, srv, &a1);
            Conn *c3 = f.client(Unix, 13, 1, srv, &a3);
            Conn *c2 = f.client(Unix, 12, 1, srv, &a2);
            Conn *c4 = f.client(Unix, 14, 2, srv2, &a4);
            if (x.failed)
                return;
            f.drop(c3);
            f.settle();
            srv->take();
            QByteArray all, to1, to2;
            std::vector<int> ends;
            int asked = 0, n = 0;
            for (int k : seq) {
                QByteArray p = "part " + QByteArray::number(++n) + QByteArray("\xC0\xDB", 2);
                if (k == One || k == Two)
                    (k == One ? to1 : to2) += p;
                all += k == One ? ref::frame((quint16)a1, p) : k == Two ? ref::frame((quint16)a2, p) : k == Gone ? ref::frame((quint16)a3, p) : k == Nobody ? ref::frame(1234, p) : k == Last ? ref::frame(0xFFFF, p)
                    : k == Ask ? ref::frame(0, ref::request(500 + asked++, "TunnelProxy.Ping", QVariantMap{{"timestamp", 5}})) : k == Damaged ? QByteArray("\x00\x01x\xDBy\xC0", 6) : k == Ends ? QByteArray("\xC0\xC0", 2) : ref::frame((quint16)a1, QByteArray());
                ends.push_back(all.size());
            }
            if (form == 2) {
                ends.clear();
                for (int i = 1; i <= all.size(); ++i)
                    ends.push_back(i);
            }
            if (form == 3) // the end of each frame comes with the next one
                for (int &e : ends)
                    e -= e < all.size();
            int from = 0;
            for (int e : ends) {
                srv->sendRaw(all.mid(from, e - from));
                from = e;
                if (form)
                    f.settle();
            }
            f.settle();
            f.gotDown(c1, to1, QString("client 1, form %1").arg(form)) && f.gotDown(c2, to2, QString("client 2, form %1").arg(form)) && f.silent(c4, "a client of another server");
            std::vector<Event> ev = srv->take();
            if (!x.failed && ((int)ev.size() != asked || Fix::count(ev, Event::Response) != asked))
                x.fail("down:request", QString("%1 requests between the frames, %2 answers").arg(asked).arg(ev.size()));
            if (!x.failed)
                f.works(c1, srv, a1, "afterwards") && f.works(c2, srv, a2, "afterwards");
        }
    };
    for (Transport t : {Tcp, Unix, Tls})
        for (int n = 1; n <= (t == Tcp ? thorough ? 4 : 3 : 2); ++n) {
            std::vector<int> q(n, 0);
            for (;;) {
                QStringList names;
                for (int k : q)
                    names << partNames[k];
                l.add(QString("frames on %1 for: %2").arg(transportName(t)).arg(names.join(", ")), [=](Ctx &x) { parts(x, t, q); });
                int i = n - 1;
                while (i >= 0 && ++q[i] == PartCount)
                    q[i--] = 0;
                if (i < 0)
                    break;
            }
        }
    // a receiver that is far behind
    for (int mb : {2, 5, 20, 70}) {
        if (mb > 20 && !thorough)
            continue;
        forPairs(l, QString("%1 MB to a client that does not read for a while").arg(mb), true, [=](Ctx &x, Transport s, Transport c) {
            if (mb > 5 && (s == Tls || c == Tls || c == Wss))
                return;
            Fix f(x, optsFor({s, c}));
            int a = -1, a2 = -1;
            Conn *srv = f.server(s, 1);
            Conn *cl = f.client(c, 11, 1, srv, &a);
            Conn *other = f.client(c, 12, 1, srv, &a2);
            if (x.failed)
                return;
            cl->peer->link->stalled = true;
            QByteArray d;
            bool text = c == Ws || c == Wss;
            for (int k = 0; k < mb * 4; ++k) {
                QByteArray b = text ? QByteArray(262144, (char)('a' + k % 26)) : pattern(262144, k);
                srv->sendFrame((quint16)a, b);
                d += b;
                f.settle();
            }
            if (!f.works(other, srv, a2, "meanwhile"))
                return;
            cl->peer->link->stalled = false;
            f.settle();
            if (f.gotDown(cl, d, "the client reads again"))
                f.works(cl, srv, a, "afterwards");
        });
    }
    // tunnel addresses whose bytes are framing bytes
    l.add("230 clients: addresses with framing bytes", [](Ctx &x) {
        Fix f(x);
        Conn *srv = f.server(Tcp, 1);
        std::vector<std::pair<Conn *, int>> cl;
        for (int k = 0; k < 230 && !x.failed; ++k) {
            int a = -1;
            Conn *c = f.client(Unix, 100 + k, 1, srv, &a);
            cl.push_back({c, a});
        }
        for (auto &c : cl)
            if (!x.failed)
                f.down(c.first, srv, c.second, "to " + QByteArray::number(c.second) + QByteArray("\xC0\xDB", 2), QString("address %1").arg(c.second)) && f.up(c.first, srv, c.second, "from " + QByteArray::number(c.second), QString("address %1").arg(c.second));
    });
    if (thorough)
        l.add("an address whose both bytes are framing bytes (0xC0DB)", [](Ctx &x) {
            Fix f(x);
            Conn *srv = f.server(Unix, 1);
            for (int k = 0; k < 0x10100 && !x.failed; ++k) {
                int a = -1;
                Conn *c = f.client(Unix, 11, 1, srv, &a);
                if (a == 0xC0DB || a == 0xDBC0 || a == 0xC0C0 || a == 0xDBDB || (a & 0xff) == 0xC0 || a == 0xDB01)
                    f.works(c, srv, a, QString("address %1").arg(a));
                f.drop(c);
                f.settle();
                srv->take();
                srv->pending.clear();
            }
        });
    // text over web sockets
    for (Transport c : {Ws, Wss})
        for (Transport s : kStream) {
            if (!compatible(s, c))
                continue;
            l.add(QString("UTF-8 text, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                for (int n : {1, 2, 3, 4, 5, 7, 125, 126, 127, 1000, 65535, 65536, 70000}) {
                    QByteArray t = QString::fromUtf8(utf8Sample(n)).remove(QChar(0xfeff)).toUtf8();
                    if (!x.failed)
                        f.down(cl, srv, a, t, QString("text of %1 bytes").arg(n));
                }
            });
            l.add(QString("control characters, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                for (const QByteArray &t : controlTexts())
                    if (!x.failed)
                        f.down(cl, srv, a, t, "text " + QString(hex(t)));
            });
            l.add(QString("text beginning with U+FEFF, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                srv->sendFrame((quint16)a, "\xef\xbb\xbf" "text");
                f.settle();
                if (Fix::data(cl->take()) != QByteArray("\xef\xbb\xbf" "text"))
                    x.fail("ws-byte-order-mark", "a byte order mark at the beginning of a text to a web socket client is lost");
            });
            l.add(QString("bytes that are not UTF-8, server on %1, client on %2").arg(transportName(s), transportName(c)), [=](Ctx &x) {
                Fix f(x, optsFor({s, c}));
                int a = -1;
                Conn *srv = f.server(s, 1);
                Conn *cl = f.client(c, 11, 1, srv, &a);
                srv->sendFrame((quint16)a, QByteArray("\xC0\xFF\x00\x80", 4));
                f.settle();
                if (Fix::data(cl->take()) != QByteArray("\xC0\xFF\x00\x80", 4))
                    x.fail("ws-non-utf8-payload", "a payload that is not UTF-8 text is altered on its way to a web socket client");
            });
        }
}

static Check *makeC02()
{
    MultiCheck *m = new MultiCheck;
    const int cats = CatDown | CatGarbage | CatLivelock;
    m->add("histories tcp", seqCheck("one server, two clients, frames of 6 kinds, reconnects", {Tcp, Tcp, Tcp}, cats, false, true, 3, 4, payloadCount()));
    m->add("histories mixed", seqCheck("one server, two clients, frames of 6 kinds, reconnects", {Unix, Tcp, Unix}, cats, false, true, 2, 4, payloadCount()));
    m->add("histories tls", seqCheck("one server, two clients, frames of 6 kinds, reconnects", {Tls, Tls, Unix}, cats, false, true, 2, 3, payloadCount()));
    m->add("histories bytewise", seqCheck("one server, two clients, frames of 6 kinds, bytewise", {Tcp, Unix, Tcp}, cats, false, true, 2, 3, payloadCount(), true));
    addSlowRaces(m, RiDown);
    for (auto t : {std::vector<Transport>{Tcp, Tcp, Tcp}, std::vector<Transport>{Unix, Unix, Tcp}}) {
        RaceConfig r = raceBase("frames to both clients, one disconnected, both talking", t, RiDown);
        r.scripts = {{A(Act::Frame, 0, 1, 0), A(Act::Frame, 0, 2, 1), A(Act::Disc, 0, 1), A(Act::Frame, 0, 2, 4)}, {A(Act::Data, 1, 0)}, {A(Act::Data, 2, 1)}};
        m->add("race frames/disconnect", new RaceCheck(r));
        RaceConfig q = raceBase("frames and gone", t, RiDown);
        q.scripts = {{A(Act::Frame, 0, 1, 0), A(Act::Frame, 0, 2, 1), A(Act::Frame, 0, 1, 4), A(Act::Close, 0)}, {A(Act::Data, 1, 0)}};
        m->add("race frames/server close/data", new RaceCheck(q));
        q.scripts = {{A(Act::Frame, 0, 1, 0), A(Act::Frame, 0, 2, 1), A(Act::Frame, 0, 1, 4), A(Act::Close, 0)}, {A(Act::Close, 2)}};
        m->add("race frames/both close", new RaceCheck(q));
        q.scripts[1] = {};
        q.maxPasses = 4;
        m->add("race frames/server close", new RaceCheck(q));
    }
    m->add("payloads", new ListCheck("every byte value, all strings over the framing bytes up to the length given, sizes to 200 kB (1 MB thorough) with a stalled client, a frame stream cut at every position / pairs of positions / bytewise, addresses with framing bytes, UTF-8 over web sockets", c02List));
    return m;
}
static CheckReg rC02("C02", makeC02);

// ---- C03 ----------------------------------------------------------------------------------------
static Check *makeC03()
{
    MultiCheck *m = new MultiCheck;
    auto alphabet = [](const MState &s) {
        std::vector<Op> ops;
        // slots 0,1: servers 1,2; slots 2..4: clients 12.. of either
        for (int i = 0; i < s.n; ++i) {
            const MSlot &x = s.s[i];
            if (x.role == Gone) {
                ops.push_back({OpOpen, i, 0, 0});
                continue;
            }
            ops.push_back({OpClose, i, 0, 0});
            if (i < 2) {
                if (x.role == Fresh)
                    ops.push_back({OpRegServer, i, 1 + i, 0});
                if (x.role == Server) {
                    for (int c = 2; c < s.n; ++c)
                        if (s.s[c].addr >= 0)
                            ops.push_back({OpFrame, i, c, 1});
                    ops.push_back({OpFrameTo, i, 0xFFFF, 0});
                    ops.push_back({OpFrameTo, i, 0x0100, 0});
                    ops.push_back({OpFrameTo, i, 500, 2});
                }
            } else {
                if (x.role == Fresh)
                    for (int sv = 0; sv < 2; ++sv)
                        ops.push_back({OpRegClient, i, 10 + i, 1 + sv});
                if (x.role == Client)
                    ops.push_back({OpData, i, i % 2 ? 2 : 1, 0});
            }
        }
        return ops;
    };
    auto add = [&](const QString &nm, std::vector<Transport> t, int dq, int dt, bool split) {
        LockstepConfig c;
        c.transports = t;
        c.categories = CatLeak | CatGarbage | CatLivelock | CatClose;
        for (Transport x : t)
            c.server.tls = c.server.tls || x == Tls || x == Wss;
        c.split = split;
        ModelCheck *k = new ModelCheck("two servers, clients of either, frames to own, foreign, stale, reserved and unknown addresses", c, alphabet, g_thorough ? dt : dq, 1);
        k->prefix = {{OpOpen, 0, 0, 0}, {OpRegServer, 0, 1, 0}, {OpOpen, 1, 0, 0}, {OpRegServer, 1, 2, 0}, {OpOpen, 2, 0, 0}, {OpRegClient, 2, 12, 1}, {OpOpen, 3, 0, 0}, {OpRegClient, 3, 13, 2}};
        m->add(nm, k);
    };
    addSlowRaces(m, RiLeak);
    add("tcp", {Tcp, Tcp, Tcp, Tcp, Tcp}, 4, 6, false);
    add("mixed", {Unix, Tcp, Unix, Tcp}, 3, 6, false);
    add("tls", {Tls, Unix, Tls, Unix}, 3, 4, false);
    add("bytewise", {Tcp, Tcp, Unix, Tcp}, 3, 4, true);
    for (auto t : {std::vector<Transport>{Tcp, Tcp, Tcp, Tcp}, std::vector<Transport>{Unix, Unix, Unix, Unix}}) {
        RaceConfig r;
        r.name = "client leaves while both servers send to its number";
        r.transports = t;
        r.preServer = {1, 2, -1, -1};
        r.preClient = {{-1, -1}, {-1, -1}, {12, 0}, {13, 1}};
        r.invariants = RiLeak | RiDown | RiUp;
        r.maxPasses = g_thorough ? 5 : 2;
        r.scripts = {{A(Act::Frame, 0, 2, 0), A(Act::Frame, 0, 2, 1)}, {A(Act::Close, 2)}, {A(Act::Frame, 1, 3, 4)}, {A(Act::Data, 3, 1)}};
        m->add("race", new RaceCheck(r));
    }
    m->add("crowds", crowd(LookData));
    m->add("addresses", new ListCheck("frames to every one of the 65536 addresses by a server with 0 to 40 clients, of which some have left, next to another server's clients", [](ListCheck &l, bool) {
        for (int clients : {0, 1, 2, 7, 40})
            for (int gone = 0; gone < 3; ++gone) { // none, the first, every second one
                if (!clients && gone)
                    continue;
                for (int part = 0; part < 8; ++part)
                    l.add(QString("%1 clients, %2, addresses part %3").arg(clients).arg(gone == 0 ? "all there" : gone == 1 ? "the first one gone" : "every second one gone").arg(part), [=](Ctx &x) {
                        Fix f(x);
                        Conn *srv = f.server(Tcp, 1);
                        Conn *other = f.server(Tcp, 2);
                        std::map<int, Conn *> mine;
                        std::vector<Conn *> foreign;
                        for (int i = 0; i < 3; ++i)
                            foreign.push_back(f.client(Tcp, 100 + i, 2, other));
                        for (int i = 0; i < clients && !x.failed; ++i) {
                            int a = -1;
                            Conn *c = f.client(Tcp, 11 + i, 1, srv, &a);
                            mine[a] = c;
                        }
                        if (x.failed)
                            return;
                        int k = 0;
                        for (auto it = mine.begin(); it != mine.end(); ++k)
                            if (gone == 2 ? k % 2 : gone == 1 && k == 0) {
                                f.drop(it->second);
                                it = mine.erase(it);
                            } else {
                                ++it;
                            }
                        f.settle();
                        srv->take();
                        other->take();
                        for (int at = part * 8192; at < (part + 1) * 8192; at += 64) {
                            std::map<Conn *, QByteArray> want;
                            for (int a = std::max(1, at); a < at + 64; ++a) {
                                QByteArray d = QByteArray::number(a) + ";";
                                srv->sendFrame((quint16)a, d);
                                if (mine.count(a))
                                    want[mine[a]] += d;
                            }
                            f.settle();
                            for (auto &m : mine)
                                if (!f.gotDown(m.second, want[m.second], QString("frames to %1..%2, the client with address %3").arg(at).arg(at + 63).arg(m.first)))
                                    return;
                            for (Conn *c : foreign)
                                if (!f.silent(c, QString("frames to %1..%2 by another server").arg(at).arg(at + 63)))
                                    return;
                            if (!f.silent(other, "another server's frames"))
                                return;
                        }
                    });
            }
    }));
    return m;
}
static CheckReg rC03("C03", makeC03);

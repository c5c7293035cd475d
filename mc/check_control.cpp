// C08 requests and responses, C09 malformed input, C10 segmentation, C11 buffer bound, C12 damaged frames
#include "fix.h"
#include "model.h"
#include "race.h"

#include <QJsonArray>

static Act A(Act::Kind k, int who, int a = 0, int b = 0) { return {k, who, a, b}; }

// ---- C08 ----------------------------------------------------------------------------------------
// What a request must be answered with, given the state of the connection that sends it.
struct Req {
    enum Kind { Hello, Ping, Introspect, RegServer, RegClient, BusyServer, NoServer, NullUuid, DiscUnknown, DiscFresh, BadMethod, BadNamespace, BadParams, kCount } kind;
};
static const char *kReqNames[] = {"Hello", "Ping", "Introspect", "RegisterServer", "RegisterClient", "RegisterServer under a taken identity", "RegisterClient at an unknown server", "null uuid", "DisconnectClient of an unknown address", "DisconnectClient without a role", "unknown method", "unknown namespace", "bad params"};

static QByteArray reqText(Req::Kind k, int id, int salt)
{
    QVariantMap p;
    switch (k) {
    case Req::Hello:
        return ref::request(id, "RemoteProxy.Hello");
    case Req::Ping:
        p["timestamp"] = 7000 + salt;
        return ref::request(id, "TunnelProxy.Ping", p);
    case Req::Introspect:
        return ref::request(id, "RemoteProxy.Introspect");
    case Req::RegServer:
        return ref::request(id, "TunnelProxy.RegisterServer", regServer(uuidOf(50), "new server"));
    case Req::RegClient:
        return ref::request(id, "TunnelProxy.RegisterClient", regClient(uuidOf(51), uuidOf(1), "new client"));
    case Req::BusyServer:
        return ref::request(id, "TunnelProxy.RegisterServer", regServer(uuidOf(1), "impostor"));
    case Req::NoServer:
        return ref::request(id, "TunnelProxy.RegisterClient", regClient(uuidOf(52), uuidOf(53), "lost"));
    case Req::NullUuid:
        return ref::request(id, "TunnelProxy.RegisterServer", regServer(QUuid(), "nobody"));
    case Req::DiscUnknown:
    case Req::DiscFresh:
        return ref::request(id, "TunnelProxy.DisconnectClient", discParams(4711));
    case Req::BadMethod:
        return ref::request(id, "TunnelProxy.NoSuchThing");
    case Req::BadNamespace:
        return ref::request(id, "Nowhere.Hello");
    default:
        return ref::request(id, "TunnelProxy.Ping");
    }
}
static bool reqCloses(Req::Kind k) { return k == Req::BusyServer || k == Req::NoServer || k == Req::DiscFresh || k >= Req::BadMethod; }
static bool reqAnswered(Req::Kind k, int id, int salt, const Event &e, QString *why)
{
    auto no = [&](const QString &w) {
        *why = w + ": " + QString(e.canonical()).left(160);
        return false;
    };
    if (e.kind != Event::Response)
        return no("not a response");
    if (e.id != id)
        return no(QString("response id, request was %1").arg(id));
    if (k >= Req::BadMethod)
        return e.ok || e.data.isEmpty() ? no("expected an error with a reason") : true;
    if (!e.ok)
        return no("expected success");
    static QMap<int, QString> err{{Req::RegServer, "TunnelProxyErrorNoError"}, {Req::RegClient, "TunnelProxyErrorNoError"}, {Req::BusyServer, "TunnelProxyErrorAlreadyRegistered"}, {Req::NoServer, "TunnelProxyErrorServerNotFound"}, {Req::NullUuid, "TunnelProxyErrorInvalidUuid"}, {Req::DiscUnknown, "TunnelProxyErrorUnknownSocketAddress"}, {Req::DiscFresh, "TunnelProxyErrorAlreadyRegistered"}};
    if (err.contains(k) && e.error != err[k])
        return no("expected " + err[k]);
    if (k == Req::Ping && e.params.value("timestamp").toInt() != 7000 + salt)
        return no("timestamp");
    if (k == Req::Hello && (e.params.value("name").toString() != "mc proxy" || e.params.value("server").toString().isEmpty() || e.params.value("version").toString().isEmpty() || e.params.value("apiVersion").toString().isEmpty()))
        return no("incomplete Hello");
    if (k == Req::Introspect && (e.params.value("methods").toMap().isEmpty() || e.params.value("types").toMap().isEmpty() || !e.params.contains("notifications")))
        return no("incomplete Introspect");
    return true;
}

enum Pace { OneWrite, BackToBack, OneByOne };
static const char *kPace[] = {"in one write", "back to back", "one after the other"};

// a pipelined sequence on one connection, next to a tunnel that must not notice
static void runSequence(Ctx &x, Transport t, bool asServer, const std::vector<Req::Kind> &seq, Pace pace, const std::vector<int> &ids)
{
    Fix f(x, optsFor({t}));
    Transport other = compatible(t, Tcp) ? Tcp : Unix;
    int a = -1;
    Conn *srv = f.server(other, 1);
    Conn *cl = f.client(other, 11, 1, srv, &a);
    Conn *c = asServer ? f.server(t, 30) : f.fresh(t);
    if (x.failed)
        return;
    bool newClient = false;
    QByteArray all;
    for (size_t i = 0; i < seq.size(); ++i) {
        QByteArray r = reqText(seq[i], ids[i], (int)i);
        newClient = newClient || seq[i] == Req::RegClient;
        if (asServer)
            r = ref::frame(0, r);
        if (pace == OneWrite)
            all += r;
        else
            c->sendRaw(r);
        if (pace == OneByOne)
            f.settle();
    }
    if (pace == OneWrite)
        c->sendRaw(all);
    f.settle();
    std::vector<Event> ev = c->take();
    size_t k = 0;
    bool closes = false;
    for (size_t i = 0; i < seq.size() && !closes; ++i, ++k) {
        x.step();
        if (k >= ev.size())
            return x.fail("response:missing", QString("request %1 of the sequence was not answered").arg(i));
        QString why;
        if (!reqAnswered(seq[i], ids[i], (int)i, ev[k], &why))
            return x.fail("response:wrong", QString("request %1: %2").arg(i).arg(why));
        x.outcome(ev[k].canonical().left(60));
        closes = reqCloses(seq[i]);
    }
    // nothing else may come; behind a request that ends the connection nothing is promised but ids still match
    for (; k < ev.size(); ++k) {
        bool known = false;
        for (size_t i = 0; i < seq.size(); ++i)
            known = known || (ev[k].kind == Event::Response && ev[k].id == ids[i]);
        if (!closes || !known)
            return x.fail("response:extra", "unasked: " + QString(ev[k].canonical()).left(200));
    }
    if (closes != c->closed())
        return x.fail(closes ? "close:missing" : "close:unexpected", closes ? "the connection stayed open" : "the connection was closed");
    if (!newClient && !f.silent(srv, "bystander server"))
        return;
    if (newClient)
        srv->take();
    if (!f.silent(cl, "bystander client") || !f.works(cl, srv, a, "bystander tunnel"))
        return;
}

static void c08List(ListCheck &l, bool thorough)
{
    std::vector<Req::Kind> freshAl = {Req::Hello, Req::Ping, Req::Introspect, Req::NullUuid, Req::BusyServer, Req::NoServer, Req::DiscFresh, Req::BadMethod, Req::BadNamespace, Req::BadParams, Req::RegServer, Req::RegClient};
    std::vector<Req::Kind> servAl = {Req::Hello, Req::Ping, Req::Introspect, Req::NullUuid, Req::DiscUnknown, Req::BadMethod, Req::BadNamespace, Req::BadParams};
    auto gen = [&](bool asServer, Transport t, int maxLen) {
        const auto &al = asServer ? servAl : freshAl;
        std::vector<std::vector<Req::Kind>> todo{{}};
        for (int len = 1; len <= maxLen; ++len) {
            std::vector<std::vector<Req::Kind>> next;
            for (auto &s : todo) {
                if (!s.empty() && (reqCloses(s.back()) || s.back() == Req::RegServer || s.back() == Req::RegClient))
                    continue; // these end the conversation in this framing
                for (Req::Kind k : al) {
                    auto n = s;
                    n.push_back(k);
                    next.push_back(n);
                    for (Pace p : {OneWrite, BackToBack, OneByOne}) {
                        if (len == 1 && p != OneByOne)
                            continue;
                        if ((t == Ws || t == Wss) && p == OneWrite)
                            continue; // a message is a request
                        QStringList names;
                        std::vector<int> ids;
                        for (size_t i = 0; i < n.size(); ++i) {
                            names << kReqNames[n[i]];
                            ids.push_back(100 - (int)i * 7); // not consecutive, not ascending
                        }
                        l.add(QString("%1 on %2 %3: %4").arg(asServer ? "registered server" : "new connection").arg(transportName(t)).arg(kPace[p]).arg(names.join(", ")), [=](Ctx &x) { runSequence(x, t, asServer, n, p, ids); });
                    }
                }
            }
            todo = next;
        }
    };
    for (Transport t : kAll)
        gen(false, t, t == Tcp || t == Unix ? (thorough ? 5 : 4) : (thorough ? 4 : 2));
    for (Transport t : kStream)
        gen(true, t, t == Tls ? (thorough ? 3 : 2) : (thorough ? 5 : 3));
    // a request behind one that ends the connection must not be half done
    for (Transport t : {Tcp, Unix, Tls})
        for (Req::Kind first : {Req::BusyServer, Req::NoServer, Req::DiscFresh, Req::BadMethod, Req::BadParams})
            for (Req::Kind second : {Req::Hello, Req::RegServer, Req::RegClient, Req::BadMethod}) {
                for (Pace p : {OneWrite, BackToBack})
                    l.add(QString("on %1 %2: %3, then %4").arg(transportName(t), kPace[p], kReqNames[first], kReqNames[second]), [=](Ctx &x) { runSequence(x, t, false, {first, second}, p, {5, 6}); });
            }
    // every kind of id comes back
    std::vector<int> idValues = {0, 1, -1, 2, -2, 127, 255, 256, 32767, 65535, 65536, 1 << 24, 2147483646, 2147483647, -2147483647};
    for (Transport t : {Tcp, Unix, Ws})
        for (int id : idValues)
            for (Req::Kind k : {Req::Hello, Req::Ping, Req::NullUuid, Req::BadMethod, Req::NoServer, Req::RegServer})
                l.add(QString("id %1 on %2 with %3").arg(id).arg(transportName(t)).arg(kReqNames[k]), [=](Ctx &x) { runSequence(x, t, false, {k}, OneByOne, {id}); });
    // equal ids are answered separately
    for (Pace p : {OneWrite, BackToBack, OneByOne})
        l.add(QString("the same id three times %1").arg(kPace[p]), [=](Ctx &x) { runSequence(x, Tcp, false, {Req::Ping, Req::Hello, Req::Ping}, p, {9, 9, 9}); });
}

static Check *makeC08()
{
    MultiCheck *m = new MultiCheck;
    m->add("sequences", new ListCheck("all sequences of requests (12 kinds on a new connection, 8 on a registered server) up to length 4 / 3 (thorough 5), three paces, five transports, plus id values", c08List));
    for (auto t : {std::vector<Transport>{Tcp, Tcp, Tcp}, std::vector<Transport>{Unix, Unix, Tcp}, std::vector<Transport>{Ws, Tcp, Unix}}) {
        RaceConfig r;
        r.name = "three connections ask at the same time";
        r.transports = t;
        r.preServer = {-1, 1, -1};
        r.invariants = RiResp;
        r.maxPasses = g_thorough ? 5 : 3;
        r.scripts = {{A(Act::Hello, 0), A(Act::RegClient, 0, 11, 1)}, {A(Act::Hello, 1), A(Act::Hello, 1)}, {A(Act::Hello, 2), A(Act::RegServer, 2, 2)}};
        m->add("race", new RaceCheck(r));
    }
    return m;
}
static CheckReg rC08("C08", makeC08);

// ---- C09 ----------------------------------------------------------------------------------------
// One offending write; whatever it is, the proxy lives on, others notice nothing, at most one answer comes.
struct Offence {
    QByteArray bytes;
    bool mustFail = false; // certainly not a valid request: an error answer, then the end
    int id = -1;           // id of the error answer if it can be known
};
static void runOffence(Ctx &x, Fix &f, Conn *srv, Conn *cl, int a, Transport t, bool asServer, const Offence &o, const QString &what)
{
    Conn *c = asServer ? f.server(t, 30) : f.fresh(t);
    if (x.failed)
        return;
    c->sendRaw(asServer ? ref::frame(0, o.bytes) : o.bytes);
    f.settle();
    std::vector<Event> ev = c->take();
    x.step();
    int errors = 0, oks = 0;
    for (auto &e : ev) {
        x.outcome(e.canonical().left(60));
        if (e.kind == Event::Response) {
            (e.ok ? oks : errors)++;
            if (!e.ok && o.mustFail && o.id != -1 && e.id != o.id)
                return x.fail("offence:id", QString("%1: error with id %2, request id %3").arg(what).arg(e.id).arg(o.id));
            if (!e.ok && e.data.isEmpty())
                return x.fail("offence:noreason", what + ": error without a reason");
        } else if (e.kind == Event::Garbage) {
            return x.fail("offence:garbage", what + ": undecodable answer " + QString(hex(e.data)));
        }
    }
    if (o.mustFail) {
        if (errors < 1 || oks > 0)
            return x.fail("offence:unanswered", QString("%1: %2 errors, %3 successes, expected an error").arg(what).arg(errors).arg(oks));
        if (!c->closed())
            return x.fail("offence:open", what + ": the connection was not closed");
    }
    if (errors && !c->closed())
        return x.fail("offence:open", what + ": the connection was not closed after the error");
    if (!f.silent(srv, what) || !f.silent(cl, what))
        return;
    f.drop(c);
    f.settle();
    srv->take(); // a mutation may be a valid request under the bystander's name; that is its right
    srv->pending.clear();
    f.works(cl, srv, a, what);
}

static QByteArray frameJson(const QByteArray &params, const char *method = "TunnelProxy.RegisterServer") { return QByteArray("{\"id\":42,\"method\":\"") + method + "\",\"params\":" + params + "}\n"; }

static void c09List(ListCheck &l, bool thorough)
{
    const QByteArray U = uuidOf(60).toString().toUtf8();
    std::vector<std::pair<QString, Offence>> cat;
    auto bad = [&](const QString &n, const QByteArray &b, int id) {
        Offence o;
        o.bytes = b;
        o.mustFail = true;
        o.id = id;
        cat.push_back({n, o});
    };
    auto odd = [&](const QString &n, const QByteArray &b) {
        Offence o;
        o.bytes = b;
        cat.push_back({n, o});
    };
    // not JSON objects
    for (const char *s : {"{}\n", "{ this is not json }\n", "{\"id\":1,\"method\":\"RemoteProx}\n", "{]}\n", "{\"a\"}\n", "{,}\n", "{\"id\":1,}\n", "}\n", "{\"id\":01}\n", "{'id':1}\n", "{\"id\":1 \"method\":\"x\"}\n", "[1,2,{}]}\n", "}}}}\n", "\"}\n"})
        bad(QString("text %1").arg(QString(s).trimmed()), s, -1);
    // missing or wrong fields
    bad("no id", "{\"method\":\"RemoteProxy.Hello\"}\n", -1);
    for (const char *s : {"null", "{}", "[]", "[42]", "{\"id\":42}", "\"\"", "\"forty-two\""})
        bad(QString("id %1").arg(s), QByteArray("{\"id\":") + s + ",\"method\":\"RemoteProxy.Hello\"}\n", -1);
    for (const char *s : {"null", "42", "true", "{}", "[]", "[\"RemoteProxy\",\"Hello\"]", "\"\"", "\"Hello\"", "\"RemoteProxy\"", "\"RemoteProxy.\"", "\".Hello\"", "\".\"", "\"..\"", "\"RemoteProxy.Hello.\"", "\"RemoteProxy.Hello.Hello\"", "\"remoteproxy.Hello\"", "\"RemoteProxy.hello\"", "\"RemoteProxy.deleteLater\"",
                          "\"RemoteProxy.destroyed\"", "\"TunnelProxy.destroyed\"", "\"TunnelProxy.ClientConnected\"", "\"RemoteProxy.TunnelEstablished\"", "\"RemoteProxy.asyncReplyFinished\"", "\"TunnelProxy.Hello\"", "\"RemoteProxy.RegisterServer\"", "\"RemoteProxy.Hello()\"", "\" RemoteProxy.Hello\"", "\"RemoteProxy.Hello\\u0000\"", "\"RemoteProxy.\\u00c9\""})
        bad(QString("method %1").arg(s), QByteArray("{\"id\":42,\"method\":") + s + "}\n", 42);
    bad("no method", "{\"id\":42}\n", 42);
    bad("no method but params", "{\"id\":42,\"params\":{}}\n", 42);
    // params of each JSON type where an object with fields is due
    for (const char *s : {"null", "42", "true", "\"x\"", "[]", "[{}]", "{}", "{\"serverName\":\"x\"}"}) {
        bad(QString("RegisterServer params %1").arg(s), frameJson(s), 42);
        bad(QString("RegisterClient params %1").arg(s), frameJson(s, "TunnelProxy.RegisterClient"), 42);
        bad(QString("Ping params %1").arg(s), frameJson(s, "TunnelProxy.Ping"), 42);
        bad(QString("DisconnectClient params %1").arg(s), frameJson(s, "TunnelProxy.DisconnectClient"), 42);
    }
    bad("surplus parameter", frameJson("{\"serverName\":\"x\",\"serverUuid\":\"" + U + "\",\"more\":1}"), 42);
    bad("surplus parameter for Ping", frameJson("{\"timestamp\":1,\"more\":1}", "TunnelProxy.Ping"), 42);
    bad("params for Hello", frameJson("{\"x\":1}", "RemoteProxy.Hello"), 42);
    bad("parameter spelled in capitals", frameJson("{\"ServerName\":\"x\",\"serverUuid\":\"" + U + "\"}"), 42);
    // objects and arrays can never be text, a UUID or a number
    for (const char *s : {"{}", "[]", "null", "{\"a\":1}", "[1]", "[\"x\"]"}) {
        if (QByteArray(s) != "null") {
            bad(QString("serverName %1").arg(s), frameJson(QByteArray("{\"serverName\":") + s + ",\"serverUuid\":\"" + U + "\"}"), 42);
            bad(QString("serverUuid %1").arg(s), frameJson(QByteArray("{\"serverName\":\"x\",\"serverUuid\":") + s + "}"), 42);
            bad(QString("timestamp %1").arg(s), frameJson(QByteArray("{\"timestamp\":") + s + "}", "TunnelProxy.Ping"), 42);
        } else {
            odd("serverName null", frameJson("{\"serverName\":null,\"serverUuid\":\"" + U + "\"}"));
            odd("serverUuid null", frameJson("{\"serverName\":\"x\",\"serverUuid\":null}"));
            odd("timestamp null", frameJson("{\"timestamp\":null}", "TunnelProxy.Ping"));
        }
    }
    for (const char *s : {"true", "42", "-1", "1e300", "0.5", "\"\"", "\"not a uuid\"", "\"{5a}\"", "\"{ffffffff-ffff-ffff-ffff-ffffffffffff}\""}) {
        odd(QString("serverName %1").arg(s), frameJson(QByteArray("{\"serverName\":") + s + ",\"serverUuid\":\"" + U + "\"}"));
        odd(QString("serverUuid %1").arg(s), frameJson(QByteArray("{\"serverName\":\"x\",\"serverUuid\":") + s + "}"));
        odd(QString("clientUuid %1").arg(s), frameJson(QByteArray("{\"clientName\":\"x\",\"serverUuid\":\"" + U + "\",\"clientUuid\":") + s + "}", "TunnelProxy.RegisterClient"));
        odd(QString("timestamp %1").arg(s), frameJson(QByteArray("{\"timestamp\":") + s + "}", "TunnelProxy.Ping"));
        odd(QString("socketAddress %1").arg(s), frameJson(QByteArray("{\"socketAddress\":") + s + "}", "TunnelProxy.DisconnectClient"));
        odd(QString("id %1").arg(s), QByteArray("{\"id\":") + s + ",\"method\":\"RemoteProxy.Hello\"}\n");
    }
    odd("id twice", "{\"id\":1,\"id\":2,\"method\":\"RemoteProxy.Hello\"}\n");
    odd("deep nesting", frameJson(QByteArray("{\"serverName\":") + QByteArray(900, '[') + QByteArray(900, ']') + "}"));
    odd("very deep nesting", frameJson(QByteArray("{\"serverName\":") + QByteArray(3000, '[') + QByteArray(3000, ']') + "}"));
    odd("deep objects", QByteArray().append(QByteArray("{\"a\":").repeated(1000)).append("1").append(QByteArray(1000, '}')).append("\n"));
    odd("invalid UTF-8 in a name", frameJson("{\"serverName\":\"\xff\xfe\x80\",\"serverUuid\":\"" + U + "\"}"));
    odd("NUL in a name", frameJson(QByteArray("{\"serverName\":\"a\0b\",\"serverUuid\":\"", 32) + U + "\"}"));
    odd("lone surrogate", frameJson("{\"serverName\":\"\\ud800\",\"serverUuid\":\"" + U + "\"}"));
    odd("byte order mark", QByteArray("\xef\xbb\xbf") + ref::request(1, "RemoteProxy.Hello"));
    odd("empty line", "\n");
    odd("blank lines around", "\n\n" + ref::request(1, "RemoteProxy.Hello") + "\n\n");
    odd("CR LF", "{\"id\":1,\"method\":\"RemoteProxy.Hello\"}\r\n");
    odd("an array", "[1,2,3]\n");
    odd("HTTP", "GET / HTTP/1.1\r\nHost: x\r\n\r\n");
    odd("ClientHello", QByteArray("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11));
    odd("END bytes", "\xC0\xC0\xC0");
    odd("a SLIP frame", ref::frame(0, ref::request(1, "RemoteProxy.Hello")));
    odd("format characters", frameJson("{\"serverName\":\"%1%2%n%s%d\",\"serverUuid\":\"" + U + "\"}"));
    odd("format characters in a method", "{\"id\":1,\"method\":\"%n%s.%1%2\"}\n");
    odd("long method", "{\"id\":1,\"method\":\"" + QByteArray(8000, 'A') + ".x\"}\n");

    for (Transport t : kAll)
        for (int asServer = 0; asServer < 2; ++asServer) {
            if (asServer && (t == Ws || t == Wss))
                continue;
            for (auto &p : cat) {
                if (!thorough && (t == Tls || t == Wss) && !p.second.mustFail)
                    continue;
                Offence o = p.second;
                if ((t == Ws || t == Wss) && (p.first.contains("UTF-8") || p.first.contains("ClientHello") || p.first.contains("END") || p.first.contains("SLIP")))
                    continue; // not a text message; a web socket library closes such a connection by itself
                QString what = QString("%1 from a %2 on %3").arg(p.first, asServer ? "registered server" : "new connection", transportName(t));
                l.add(what, [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    Transport other = compatible(t, Tcp) ? Tcp : Unix;
                    int a = -1;
                    Conn *srv = f.server(other, 1);
                    Conn *cl = f.client(other, 11, 1, srv, &a);
                    if (!x.failed)
                        runOffence(x, f, srv, cl, a, t, asServer, o, what);
                });
            }
        }
    // every single-byte change of a registration
    QByteArray base = ref::request(42, "TunnelProxy.RegisterServer", regServer(uuidOf(60), "n"));
    QByteArray base2 = ref::request(42, "TunnelProxy.RegisterClient", regClient(uuidOf(61), uuidOf(1), "n"));
    QByteArray base3 = ref::request(42, "TunnelProxy.DisconnectClient", discParams(1));
    std::vector<int> values;
    if (thorough)
        for (int v = 0; v < 256; ++v)
            values.push_back(v);
    else
        values = {0, '\n', '"', '\\', '{', '}', '[', ',', ':', '0', '9', 'a', ' ', 0x7f, 0x80, 0xC0, 0xDB, 0xff};
    for (int which = 0; which < 3; ++which)
        for (Transport t : {Tcp, Unix})
            for (int pos = 0; pos < (which == 0 ? base : which == 1 ? base2 : base3).size(); ++pos) {
                if (which == 2 && t == Unix)
                    continue;
                if (!thorough && which == 1 && t == Unix)
                    continue;
                QByteArray b = which == 0 ? base : which == 1 ? base2 : base3;
                l.add(QString("byte %1 of request %2 changed, on %3").arg(pos).arg(which).arg(transportName(t)), [=](Ctx &x) {
                    Fix f(x);
                    int a = -1;
                    Conn *srv = f.server(t, 1);
                    Conn *cl = f.client(t, 11, 1, srv, &a);
                    for (int v : values) {
                        if (x.failed)
                            return;
                        // a valid client registration announces itself at the bystander server: not silent there
                        Offence o;
                        o.bytes = b;
                        o.bytes[pos] = (char)v;
                        Conn *c = which == 2 ? f.server(t, 30) : f.fresh(t);
                        c->sendRaw(which == 2 ? ref::frame(0, o.bytes) : o.bytes);
                        f.settle();
                        x.step();
                        int answers = 0, errors = 0;
                        for (auto &e : c->take()) {
                            if (e.kind == Event::Response) {
                                answers++;
                                errors += !e.ok;
                                x.outcome(e.canonical().left(60));
                            } else if (e.kind == Event::Garbage) {
                                return x.fail("mutation:garbage", QString("value %1: undecodable answer").arg(v));
                            }
                        }
                        if (errors && !c->closed())
                            return x.fail("mutation:open", QString("value %1: not closed after an error").arg(v));
                        f.drop(c);
                        f.settle();
                        srv->take();
                        srv->pending.clear();
                        f.works(cl, srv, a, QString("value %1").arg(v));
                    }
                });
            }
    // every pair of malformed requests in one write, and a malformed one between two good ones
    for (size_t i = 0; i < cat.size(); i += thorough ? 1 : 3)
        for (Transport t : {Tcp, Unix}) {
            QByteArray b = cat[i].second.bytes;
            l.add(QString("%1 twice, then registrations, in one write on %2").arg(cat[i].first, transportName(t)), [=](Ctx &x) {
                Fix f(x);
                int a = -1;
                Conn *srv = f.server(Tcp, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                Conn *c = f.fresh(t);
                if (x.failed)
                    return;
                c->sendRaw(b + b + ref::request(7, "TunnelProxy.RegisterServer", regServer(uuidOf(70), "z")) + ref::request(8, "TunnelProxy.RegisterClient", regClient(uuidOf(71), uuidOf(1), "z")));
                f.settle();
                f.drop(c);
                f.settle();
                srv->take();
                srv->pending.clear();
                if (!f.works(cl, srv, a, "after it"))
                    return;
                QVariantMap st = f.w.monitor(true).value("tunnelProxyStatistic").toMap();
                if (st.value("totalClientCount").toInt() != 2 || st.value("serverConnectionsCount").toInt() != 1 || st.value("clientConnectionsCount").toInt() != 1)
                    x.fail("offence:leftover", "the offender's registration outlived its connection");
                x.step();
            });
        }
}

static Check *makeC09()
{
    MultiCheck *m = new MultiCheck;
    m->add("malformed", new ListCheck("a catalogue of malformed and odd requests from new and registered connections on five transports; every one-byte change (18 values, thorough 256) of three requests; malformed pairs in one write", c09List));
    return m;
}
static CheckReg rC09("C09", makeC09);

// ---- C10 ----------------------------------------------------------------------------------------
struct Script {
    QString name;
    QByteArray bytes;          // the complete conversation of one connection
    bool server = false;       // sent as frames after registering as a server
    std::vector<QByteArray> expect; // canonical responses
};

static std::vector<Script> segScripts()
{
    std::vector<Script> out;
    auto add = [&](const QString &n, const QByteArray &b, std::vector<QByteArray> e) {
        Script s;
        s.name = n;
        s.bytes = b;
        s.expect = e;
        out.push_back(s);
    };
    const QByteArray okReg = "resp:7:ok:TunnelProxyErrorNoError";
    QByteArray U = uuidOf(60).toString().toUtf8();
    add("Hello", ref::request(7, "RemoteProxy.Hello"), {"resp:7:ok:"});
    add("RegisterServer", ref::request(7, "TunnelProxy.RegisterServer", regServer(uuidOf(60), "name")), {okReg});
    add("RegisterClient", ref::request(7, "TunnelProxy.RegisterClient", regClient(uuidOf(61), uuidOf(1), "name")), {okReg});
    add("params first", "{\"params\":{\"serverName\":\"n\",\"serverUuid\":\"" + U + "\"},\"method\":\"TunnelProxy.RegisterServer\",\"id\":7}\n", {okReg});
    add("indented", "{\n    \"id\": 7,\n    \"method\": \"TunnelProxy.RegisterServer\",\n    \"params\": {\n        \"serverName\": \"n\",\n        \"serverUuid\": \"" + U + "\"\n    }\n}\n", {okReg});
    for (const char *n : {"}", "{", "}}{{", "\"", "\\", "\\\"}", "}\n", "}\n{", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80}", "[{]}"})
        add(QString("name %1").arg(QString::fromUtf8(n)), ref::request(7, "TunnelProxy.RegisterServer", regServer(uuidOf(60), QString::fromUtf8(n))), {okReg});
    QVariantMap p;
    p["timestamp"] = 1;
    add("two requests", ref::request(3, "TunnelProxy.Ping", p) + ref::request(7, "TunnelProxy.RegisterServer", regServer(uuidOf(60), "}{")), {"resp:3:ok:", okReg});
    add("three requests", ref::request(1, "RemoteProxy.Hello") + ref::request(2, "TunnelProxy.Ping", p) + ref::request(3, "RemoteProxy.Hello"), {"resp:1:ok:", "resp:2:ok:", "resp:3:ok:"});
    add("refused", ref::request(7, "TunnelProxy.RegisterClient", regClient(uuidOf(61), uuidOf(99), "}")), {"resp:7:ok:TunnelProxyErrorServerNotFound"});
    return out;
}

static void playChunks(Ctx &x, Fix &f, Transport t, const Script &s, const std::vector<int> &cuts, Conn *srv, bool settleBetween = true)
{
    Conn *c = f.fresh(t);
    int from = 0;
    for (size_t i = 0; i <= cuts.size(); ++i) {
        int to = i < cuts.size() ? cuts[i] : s.bytes.size();
        c->sendRaw(s.bytes.mid(from, to - from));
        if (settleBetween)
            f.settle();
        from = to;
    }
    f.settle();
    std::vector<Event> ev = c->take();
    x.step();
    QList<QByteArray> got;
    for (auto &e : ev)
        got << e.canonical();
    bool same = got.size() == (int)s.expect.size();
    for (int i = 0; same && i < got.size(); ++i)
        same = got[i] == s.expect[i];
    if (!same) {
        QStringList cs;
        for (int k : cuts)
            cs << QString::number(k);
        QList<QByteArray> want;
        for (auto &e : s.expect)
            want << e;
        return x.fail("segmentation", QString("%1 cut at %2 on %3: got [%4], expected [%5]").arg(s.name, cs.join(","), transportName(t), QString::fromUtf8(got.join(' ')).left(200), QString::fromUtf8(want.join(' '))));
    }
    // the mode the connection is in afterwards starts with its next byte
    if (!s.expect.empty() && s.expect.back().endsWith("ErrorNoError")) {
        if (c->mode == Conn::Raw) {
            int a = f.announced(srv, 61);
            if (x.failed || !f.works(c, srv, a, QString("%1 cut, then the tunnel").arg(s.name)))
                return;
        } else {
            c->request("RemoteProxy.Hello");
            f.settle();
            auto e = c->take();
            if (e.size() != 1 || !e[0].ok)
                return x.fail("segmentation:mode", QString("%1 cut at %2 on %3: the registered server's first request is not answered").arg(s.name).arg(cuts.empty() ? -1 : cuts[0]).arg(transportName(t)));
        }
    }
    f.drop(c);
    f.settle();
    srv->take();
    srv->pending.clear();
}

static void c10List(ListCheck &l, bool thorough)
{
    static std::vector<Script> scripts = segScripts();
    for (Transport t : kStream)
        for (size_t k = 0; k < scripts.size(); ++k) {
            const Script s = scripts[k];
            l.add(QString("%1 on %2: every cut, byte by byte").arg(s.name, transportName(t)), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                Conn *srv = f.server(Unix, 1);
                playChunks(x, f, t, s, {}, srv);
                std::vector<int> all;
                for (int i = 1; i < s.bytes.size(); ++i) {
                    all.push_back(i);
                    if (!x.failed)
                        playChunks(x, f, t, s, {i}, srv);
                }
                if (!x.failed)
                    playChunks(x, f, t, s, all, srv);
                if (!x.failed)
                    playChunks(x, f, t, s, all, srv, false);
            });
            // pairs of cuts; all of them in the thorough tier, the structural ones otherwise
            if (t == Tls && !thorough)
                continue;
            std::vector<int> pos;
            for (int i = 1; i < s.bytes.size(); ++i)
                if (thorough || QByteArray("{}\"\\\n:,[]").contains(s.bytes[i - 1]) || QByteArray("{}\n").contains(s.bytes[i]))
                    pos.push_back(i);
            size_t step = 12;
            for (size_t b = 0; b < pos.size(); b += step)
                l.add(QString("%1 on %2: pairs of cuts from position %3").arg(s.name, transportName(t)).arg(pos[b]), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    Conn *srv = f.server(Unix, 1);
                    for (size_t i = b; i < b + step && i < pos.size(); ++i)
                        for (size_t j = i + 1; j < pos.size() && !x.failed; ++j)
                            playChunks(x, f, t, s, {pos[i], pos[j]}, srv);
                });
        }
    // frames of a registered server: control and data mixed
    for (Transport t : kStream) {
        if (!thorough && t == Tls)
            continue;
        for (int v = 0; v < 3; ++v) {
            l.add(QString("control and data frames of a server on %1, variant %2: every cut").arg(transportName(t)).arg(v), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                Conn *srv = f.server(t, 1);
                int a = -1;
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                QVariantMap p;
                p["timestamp"] = 99;
                QByteArray data = v == 0 ? QByteArray("\xC0\xDB\x00}\n{", 6) : v == 1 ? payloadOf(2) : QByteArray("\xDB\xC0\xC0", 3);
                auto stream = [&](int id) {
                    return ref::frame(0, ref::request(id, "TunnelProxy.Ping", p)) + ref::frame(a, data) + (v == 1 ? QByteArray("\xC0") : QByteArray()) + ref::frame(0, ref::request(id + 1, "TunnelProxy.DisconnectClient", discParams(0xC0DB))) + ref::frame(a, data);
                };
                int n = stream(100).size();
                for (int cut = 0; cut <= n && !x.failed; ++cut) {
                    for (int second = cut; second <= (thorough ? n : cut); ++second) {
                        QByteArray s = stream(100);
                        srv->sendRaw(s.left(cut));
                        f.settle();
                        if (second > cut) {
                            srv->sendRaw(s.mid(cut, second - cut));
                            f.settle();
                        }
                        srv->sendRaw(s.mid(second));
                        f.settle();
                        x.step();
                        QByteArray got;
                        for (auto &e : srv->take())
                            got += e.canonical() + " ";
                        if (got != "resp:100:ok: resp:101:ok:TunnelProxyErrorUnknownSocketAddress ")
                            return x.fail("segmentation:frames", QString("cut at %1,%2: got %3").arg(cut).arg(second).arg(QString(got)));
                        if (!f.gotDown(cl, data + data, QString("cut at %1").arg(cut)))
                            return;
                    }
                }
            });
        }
    }
    // web socket: a request in one message, fragmented, and with the byte stream cut anywhere
    for (Transport t : {Ws, Wss})
        for (size_t k = 0; k < scripts.size(); ++k) {
            const Script s = scripts[k];
            if (s.name.contains("requests"))
                continue;
            if (!thorough && t == Wss)
                continue;
            l.add(QString("%1 on %2: every fragmentation").arg(s.name, transportName(t)), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                Conn *srv = f.server(Unix, 1);
                for (int variant = 0; variant < 2; ++variant) // with and without the final newline
                    for (int i = 1; i < s.bytes.size() - 1 && !x.failed; ++i) {
                        QByteArray msg = variant ? s.bytes.left(s.bytes.size() - 1) : s.bytes;
                        Conn *c = f.fresh(t);
                        c->peer->sendWs(1, msg.left(i), false);
                        if (i % 2)
                            f.settle();
                        c->peer->sendWs(0, msg.mid(i), true);
                        f.settle();
                        x.step();
                        QByteArray got;
                        for (auto &e : c->take())
                            got += e.canonical();
                        if (got != s.expect[0])
                            return x.fail("segmentation:ws", QString("%1 fragmented at %2: got %3").arg(s.name).arg(i).arg(QString(got)));
                        f.drop(c);
                        f.settle();
                        srv->take();
                        srv->pending.clear();
                    }
            });
            if (t == Ws)
                l.add(QString("%1 on ws: the byte stream cut anywhere").arg(s.name), [=](Ctx &x) {
                    Fix f(x);
                    Conn *srv = f.server(Unix, 1);
                    // the masked frame, built by hand
                    QByteArray fr("\x81\xFE", 2);
                    fr.append((char)(s.bytes.size() >> 8)).append((char)s.bytes.size()).append("abcd");
                    for (int i = 0; i < s.bytes.size(); ++i)
                        fr.append((char)(s.bytes[i] ^ "abcd"[i & 3]));
                    if (s.bytes.size() < 126)
                        return;
                    for (int i = 1; i < fr.size() && !x.failed; ++i) {
                        Conn *c = f.fresh(t);
                        c->peer->link->write(fr.left(i));
                        f.settle();
                        c->peer->link->write(fr.mid(i));
                        f.settle();
                        x.step();
                        QByteArray got;
                        for (auto &e : c->take())
                            got += e.canonical();
                        if (got != s.expect[0])
                            return x.fail("segmentation:ws", QString("%1 cut at %2: got %3").arg(s.name).arg(i).arg(QString(got)));
                        f.drop(c);
                        f.settle();
                        srv->take();
                        srv->pending.clear();
                    }
                });
        }
}

static Check *makeC10()
{
    MultiCheck *m = new MultiCheck;
    m->add("texts", new ListCheck("all names of up to 4 (thorough: 5) characters out of { } \" \\ LF a, in requests with and without a newline behind them, whole and byte by byte, as the last and as the first member", [](ListCheck &l, bool thorough) {
        for (Transport t : kAll)
            for (int len = 1; len <= (thorough ? 5 : 4); ++len)
                for (int part = 0; part < (len >= 4 ? 16 : 1); ++part)
                    l.add(QString("all names of %1 characters on %2, part %3").arg(len).arg(transportName(t)).arg(part), [=](Ctx &x) {
                        Fix f(x, optsFor({t}));
                        int n = 1;
                        for (int i = 0; i < len; ++i)
                            n *= 6;
                        for (int k = part; k < n && !x.failed; k += len >= 4 ? 16 : 1) {
                            QByteArray esc;
                            for (int i = 0, v = k; i < len; ++i, v /= 6) {
                                static const char *e[] = {"{", "}", "\\\"", "\\\\", "\\n", "a"};
                                esc += e[v % 6];
                            }
                            QByteArray uuid = "\"serverUuid\":\"" + uuidOf(60).toString().toUtf8() + "\"", name = "\"serverName\":\"" + esc + "\"";
                            for (int form = 0; form < 8 && !x.failed; ++form) {
                                if ((form & 2) && (t == Tls || t == Ws || t == Wss))
                                    continue;
                                QByteArray params = "\"params\":{" + (form & 1 ? name + "," + uuid : uuid + "," + name) + "}";
                                QByteArray head = "\"id\":7,\"method\":\"TunnelProxy.RegisterServer\"";
                                QByteArray r = "{" + (form & 1 ? params + "," + head : head + "," + params) + "}" + (form & 4 ? "\n" : "");
                                Conn *c = f.fresh(t);
                                if (form & 2) {
                                    for (char b : r) {
                                        c->sendRaw(QByteArray(1, b));
                                        f.settle();
                                    }
                                } else {
                                    c->sendRaw(r);
                                    f.settle();
                                }
                                x.step();
                                auto ev = c->take();
                                if (ev.size() != 1 || ev[0].id != 7 || ev[0].error != "TunnelProxyErrorNoError" || c->closed())
                                    return x.fail("texts", QString("not answered once: %1").arg(QString(r)));
                                f.drop(c);
                                f.settle();
                            }
                        }
                    });
    }));
    m->add("white space", new ListCheck("one or two white space characters (space, tab, CR, LF) at every place of a request where JSON allows them, outside of names, requests whole and byte by byte, one or two in a row", [](ListCheck &l, bool) {
        for (Transport t : kAll)
            for (int form = 0; form < 4; ++form) {
                bool bytes = form & 1, two = form & 2;
                if (bytes && (t == Ws || t == Wss || t == Tls))
                    continue;
                for (const char *space : {" ", "\t", "\r", "\n", "  ", "\t\t", "\r\n", "\n\n", "\n\t", " \t"})
                    l.add(QString("%1 on %2%3%4").arg(QString(QByteArray(space).toHex())).arg(transportName(t)).arg(bytes ? ", byte by byte" : "").arg(two ? ", two requests" : ""), [=](Ctx &x) {
                        Fix f(x, optsFor({t}));
                        QList<QByteArray> tokens{"{", "\"id\"", ":", "7", ",", "\"method\"", ":", "\"TunnelProxy.RegisterServer\"", ",", "\"params\"", ":", "{", "\"serverName\"", ":", "\"a}\"", ",", "\"serverUuid\"", ":", "\"" + uuidOf(60).toString().toUtf8() + "\"", "}", "}"};
                        QByteArray hello = "{\"id\":6,\"method\":\"RemoteProxy.Hello\"}";
                        for (int at = two ? 1 : 0; at < tokens.size() && !x.failed; ++at) { // everywhere, then at one place each
                            QByteArray r;
                            for (int i = 0; i < tokens.size(); ++i) {
                                if ((at == 0 && i > 0) || i == at)
                                    r += space;
                                r += tokens[i];
                            }
                            if (two)
                                r = hello + "\n" + r;
                            r += "\n";
                            Conn *c = f.fresh(t);
                            if (bytes) {
                                for (char b : r) {
                                    c->sendRaw(QByteArray(1, b));
                                    f.settle();
                                }
                            } else {
                                c->sendRaw(r);
                                f.settle();
                            }
                            x.step();
                            auto ev = c->take();
                            if ((int)ev.size() != 1 + two || ev.back().id != 7 || ev.back().error != "TunnelProxyErrorNoError" || c->closed())
                                return x.fail("space", QString("not answered as without: %1").arg(QString(r.toPercentEncoding(" {}\":,."))));
                            f.drop(c);
                            f.settle();
                        }
                    });
            }
    }));
    m->add("cuts", new ListCheck("19 control conversations (braces, quotes, escapes, line breaks and multi-byte characters in names; indented; several requests): every cut position, byte by byte, pairs of cuts (structural positions; all in the thorough tier), on tcp/unix/tls; frame streams of a server; web socket fragments", c10List));
    // whole histories with every byte delivered on its own
    LockstepConfig c;
    c.transports = {Tcp, Unix, Tcp};
    c.split = true;
    c.categories = CatResp | CatClose | CatGarbage | CatLivelock;
    ModelCheck *k = new ModelCheck("histories with every byte delivered on its own", c, [](const MState &s) {
        std::vector<Op> ops;
        for (int i = 0; i < s.n; ++i) {
            const MSlot &x = s.s[i];
            if (x.role == Gone)
                ops.push_back({OpOpen, i, 0, 0});
            else if (x.role != Client) {
                ops.push_back({OpPing, i, 0, 0});
                if (x.role == Fresh)
                    ops.push_back({OpRegServer, i, 1 + i, 0});
                ops.push_back({OpRegClient, i, 10 + i, 1});
                ops.push_back({OpDiscTo, i, 1, 0});
                ops.push_back({OpBad, i, 2, 0});
                ops.push_back({OpBad, i, 5, 0});
            }
        }
        return ops;
    }, g_thorough ? 6 : 4);
    m->add("bytewise histories", k);
    return m;
}
static CheckReg rC10("C10", makeC10);

// ---- C11 ----------------------------------------------------------------------------------------
static void c11List(ListCheck &l, bool thorough)
{
    const int K = 10 * 1024;
    for (Transport t : kStream)
        for (int chunk : {1, 7, 1000, 4096, 9999, 100000}) {
            if (chunk == 1 && t == Tls && !thorough)
                continue;
            // an unfinished request grows: not closed up to the bound, closed soon behind it
            l.add(QString("endless request on %1 in chunks of %2").arg(transportName(t)).arg(chunk), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                int a = -1;
                Conn *srv = f.server(Unix, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                Conn *c = f.fresh(t);
                QByteArray head = "{\"id\":1,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"";
                qint64 sent = 0;
                c->sendRaw(head);
                sent += head.size();
                f.settle();
                while (!x.failed && !c->closed() && sent < 400000) {
                    c->sendRaw(QByteArray(chunk, 'x'));
                    sent += chunk;
                    f.settle();
                    x.step();
                    if (c->closed() && sent <= K)
                        return x.fail("bound:early", QString("closed after %1 bytes").arg(sent));
                    if (!c->closed() && sent > K)
                        return x.fail("bound:open", QString("still open after %1 bytes of one request").arg(sent));
                }
                if (x.failed)
                    return;
                for (auto &e : c->take())
                    if (e.kind == Event::Response && e.ok)
                        return x.fail("bound:answered", "an unfinished request was answered");
                f.works(cl, srv, a, "bystander");
            });
            // a request that stays below the bound is served, however it is cut
            for (int size : {K - 1, K - 100, K / 2}) {
                if (chunk == 1 && !thorough && size != K - 1)
                    continue;
                l.add(QString("request of %1 bytes on %2 in chunks of %3").arg(size).arg(transportName(t)).arg(chunk), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    Conn *c = f.fresh(t);
                    QByteArray r = ref::request(5, "TunnelProxy.RegisterServer", regServer(uuidOf(1), "N"));
                    r = ref::request(5, "TunnelProxy.RegisterServer", regServer(uuidOf(1), QString(size - r.size() + 1, 'N')));
                    for (int i = 0; i < r.size(); i += chunk) {
                        c->sendRaw(r.mid(i, chunk));
                        f.settle();
                    }
                    x.step();
                    auto ev = c->take();
                    if (ev.size() != 1 || ev[0].error != "TunnelProxyErrorNoError" || c->closed())
                        x.fail("bound:refused", QString("a request of %1 bytes was not served").arg(r.size()));
                });
            }
        }
    // the bound is on the unfinished rest, not on the total: many requests over one connection
    for (Transport t : kAll)
        l.add(QString("40 KB of small requests over one connection on %1").arg(transportName(t)), [=](Ctx &x) {
            Fix f(x, optsFor({t}));
            Conn *c = f.fresh(t);
            int n = 700;
            for (int i = 0; i < n; ++i)
                c->sendRaw(ref::request(i, "RemoteProxy.Hello"));
            f.settle();
            auto ev = c->take();
            x.step();
            if ((int)ev.size() != n || c->closed())
                return x.fail("bound:total", QString("%1 of %2 requests answered").arg(ev.size()).arg(n));
            for (int i = 0; i < n; ++i)
                if (ev[i].id != i)
                    return x.fail("bound:order", "responses out of order");
        });
    // what accumulates without ever finishing: several unfinished connections do not disturb each other
    l.add("twenty connections with unfinished requests", [=](Ctx &x) {
        Fix f(x);
        std::vector<Conn *> cs;
        QByteArray r = ref::request(5, "TunnelProxy.RegisterServer", regServer(uuidOf(1), "N"));
        for (int i = 0; i < 20; ++i) {
            cs.push_back(f.fresh(i % 2 ? Tcp : Unix));
            cs.back()->sendRaw(ref::request(5, "TunnelProxy.RegisterServer", regServer(uuidOf(100 + i), "N")).left(r.size() - 2 - i));
            f.settle();
        }
        for (int i = 0; i < 20; ++i) {
            cs[i]->sendRaw(ref::request(5, "TunnelProxy.RegisterServer", regServer(uuidOf(100 + i), "N")).mid(r.size() - 2 - i));
            f.settle();
            x.step();
            auto ev = cs[i]->take();
            if (ev.size() != 1 || ev[0].error != "TunnelProxyErrorNoError")
                return x.fail("bound:mixed", QString("connection %1 was not served").arg(i));
        }
    });
    // one or two reads of every size around the bound, also behind complete requests
    for (Transport t : kStream)
        for (int before = 0; before < 2; ++before)
            for (int first : {0, 1, 100, 5000, 10200})
                l.add(QString("unfinished requests of %1 and more bytes at once%2 on %3").arg(first).arg(before ? " behind complete ones" : "", transportName(t)), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    for (int total : {200, 1000, 4095, 4097, 8191, 8193, 10000, K - 1, K, K + 1, K + 2, 10300, 11000, 12000, 12287, 12289, 14000, 16000, 16383, 16384, 16385, 20000, 30000, 32769, 65000}) {
                        if (total <= first || x.failed)
                            continue;
                        Conn *c = f.fresh(t);
                        QByteArray text = "{\"id\":1,\"method\":\"TunnelProxy.RegisterServer\",\"params\":{\"serverName\":\"" + QByteArray(total, 'x');
                        QByteArray hello = before ? ref::request(1, "RemoteProxy.Hello") + ref::request(2, "RemoteProxy.Hello") : QByteArray();
                        if (first) {
                            c->sendRaw(hello + text.left(first));
                            f.settle();
                            hello.clear();
                        }
                        c->sendRaw(hello + text.mid(first, total - first));
                        f.settle();
                        x.step();
                        if (c->closed() != (total > K))
                            return x.fail(total > K ? "bound:open" : "bound:early", QString("%1 bytes of an unfinished request in %2 reads: %3").arg(total).arg(first ? 2 : 1).arg(c->closed() ? "closed" : "still open"));
                        f.drop(c);
                        f.settle();
                    }
                });
    // memory: bytes of an unfinished request that exceed the bound are not kept
    for (Transport t : {Tcp, Unix})
        l.add(QString("a megabyte at once on %1").arg(transportName(t)), [=](Ctx &x) {
            Fix f(x);
            Conn *c = f.fresh(t);
            c->sendRaw("{" + QByteArray(1 << 20, 'x'));
            f.settle();
            x.step();
            if (!c->closed())
                x.fail("bound:open", "still open");
        });
}
static CheckReg rC11("C11", [] () -> Check * { MultiCheck *m = new MultiCheck; m->add("bound", new ListCheck("unfinished requests in chunks of 1 to 100000 bytes, requests just below the bound, many small requests, on three stream transports (chunks settle one by one)", c11List)); return m; });

// ---- C12 ----------------------------------------------------------------------------------------
// A registered server sends every byte string over an alphabet of the special bytes, between two good frames.
static void c12Run(Ctx &x, Fix &f, Conn *srv, Conn *cl, int a, Conn *cl2, int a2, const QByteArray &noise, int cut)
{
    // reference: what the noise means
    QByteArray first = ref::frame((quint16)a, "first");
    QByteArray last = ref::frame((quint16)a, "last") + ref::frame((quint16)a2, "other");
    QByteArray stream = first + noise + "\xC0" + last;
    QByteArray b = noise + "\xC0";
    QByteArray want;
    for (auto &fr : ref::slipDecode(b)) {
        if (fr.shortFrame && fr.valid)
            return; // an address of its own is not there; unspecified
        if (fr.valid && fr.addr == 0)
            return; // a control message; other properties cover these
        if (fr.valid && fr.addr == a)
            want += fr.data;
        if (fr.valid && fr.addr == a2)
            return;
    }
    if (cut < 0) {
        srv->sendRaw(stream);
    } else {
        srv->sendRaw(stream.left(cut));
        f.settle();
        srv->sendRaw(stream.mid(cut));
    }
    f.settle();
    QString what = QString("noise %1%2").arg(QString(hex(noise))).arg(cut < 0 ? QString() : QString(" cut at %1").arg(cut));
    f.gotDown(cl, "first" + want + "last", what) && f.gotDown(cl2, "other", what) && f.silent(srv, what);
}

static void c12List(ListCheck &l, bool thorough)
{
    const QByteArray alpha("\xC0\xDB\xDC\xDD\x00\x01\x02y", 8);
    for (Transport t : kStream) {
        int n = thorough ? (t == Tls ? 6 : 7) : (t == Tls ? 5 : 6);
        int blocks = alpha.size();
        for (int b = 0; b < blocks; ++b)
            for (int b2 = 0; b2 < blocks; ++b2)
                l.add(QString("all strings up to %1 bytes starting with %2 on %3").arg(n).arg(QString(hex(alpha.mid(b, 1) + alpha.mid(b2, 1))), transportName(t)), [=](Ctx &x) {
                    Fix f(x, optsFor({t}));
                    int a = -1, a2 = -1;
                    Conn *srv = f.server(t, 1);
                    Conn *cl = f.client(Unix, 11, 1, srv, &a);
                    Conn *cl2 = f.client(Unix, 12, 1, srv, &a2);
                    if (x.failed)
                        return;
                    if (a != 1 || a2 != 2) {
                        // the alphabet is chosen for the addresses 1 and 2; other addresses are as good, only less is hit
                        x.outcome("other addresses");
                    }
                    for (int len = (b2 == 0 ? 1 : 2); len <= n; ++len) {
                        quint64 total = 1;
                        for (int k = 2; k < len; ++k)
                            total *= alpha.size();
                        for (quint64 v = 0; v < total && !x.failed; ++v) {
                            QByteArray s = alpha.mid(b, 1);
                            if (len > 1)
                                s += alpha.mid(b2, 1);
                            quint64 q = v;
                            for (int k = 2; k < len; ++k) {
                                s.append(alpha[int(q % alpha.size())]);
                                q /= alpha.size();
                            }
                            c12Run(x, f, srv, cl, a, cl2, a2, s, -1);
                        }
                    }
                });
        // cut everywhere
        int nc = thorough ? 4 : 3;
        for (int b = 0; b < blocks; ++b)
            l.add(QString("all strings of %1 bytes starting with %2, cut everywhere, on %3").arg(nc).arg(QString(hex(alpha.mid(b, 1))), transportName(t)), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                int a = -1, a2 = -1;
                Conn *srv = f.server(t, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                Conn *cl2 = f.client(Unix, 12, 1, srv, &a2);
                quint64 total = 1;
                for (int k = 1; k < nc; ++k)
                    total *= alpha.size();
                for (quint64 v = 0; v < total && !x.failed; ++v) {
                    QByteArray s = alpha.mid(b, 1);
                    quint64 q = v;
                    for (int k = 1; k < nc; ++k) {
                        s.append(alpha[int(q % alpha.size())]);
                        q /= alpha.size();
                    }
                    for (int cut = 1; cut < 30 && !x.failed; cut += thorough ? 1 : 2)
                        c12Run(x, f, srv, cl, a, cl2, a2, s, cut);
                }
            });
    }
    // damage in every position of a real frame: only that frame is lost
    for (Transport t : {Tcp, Unix})
        for (int what = 0; what < 3; ++what)
            l.add(QString("a frame with its byte %1, everywhere, on %2").arg(what == 0 ? "replaced by a stray escape" : what == 1 ? "replaced by an end" : "doubled").arg(transportName(t)), [=](Ctx &x) {
                Fix f(x);
                int a = -1, a2 = -1;
                Conn *srv = f.server(t, 1);
                Conn *cl = f.client(Unix, 11, 1, srv, &a);
                Conn *cl2 = f.client(Tcp, 12, 1, srv, &a2);
                QByteArray fr = ref::frame(a, pattern(40, 1) + QByteArray("\xC0\xDB\x01\x02", 4));
                for (int i = 0; i < fr.size() && !x.failed; ++i) {
                    QByteArray d = fr;
                    if (what == 0)
                        d[i] = '\xDB';
                    else if (what == 1)
                        d[i] = '\xC0';
                    else
                        d.insert(i, d[i]);
                    c12Run(x, f, srv, cl, a, cl2, a2, d, -1);
                }
            });
}
static CheckReg rC12("C12", [] () -> Check * { MultiCheck *m = new MultiCheck; m->add("noise", new ListCheck("all byte strings over {C0,DB,DC,DD,00,01,02,y} up to length 6, 5 on tls (thorough 7, 6) placed between good frames, also cut everywhere; every single-byte damage of a frame", c12List)); return m; });

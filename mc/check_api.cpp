// C30 what the proxy says about its API (Introspect) is what it does
#include "fix.h"

namespace {

struct Param {
    const char *name, *type;
};
struct Method {
    const char *name;
    std::vector<Param> params;
    std::vector<Param> returns;
};
// the API the clients are built for
const std::vector<Method> &api()
{
    static const std::vector<Method> m = {
        {"RemoteProxy.Hello", {}, {{"server", "String"}, {"name", "String"}, {"version", "String"}, {"apiVersion", "String"}}},
        {"RemoteProxy.Introspect", {}, {{"methods", "Object"}, {"types", "Object"}, {"notifications", "Object"}}},
        {"TunnelProxy.RegisterServer", {{"serverName", "String"}, {"serverUuid", "Uuid"}}, {{"tunnelProxyError", "$ref:TunnelProxyError"}, {"slipEnabled", "Bool"}}},
        {"TunnelProxy.RegisterClient", {{"clientName", "String"}, {"clientUuid", "Uuid"}, {"serverUuid", "Uuid"}}, {{"tunnelProxyError", "$ref:TunnelProxyError"}}},
        {"TunnelProxy.DisconnectClient", {{"socketAddress", "UInt"}}, {{"tunnelProxyError", "$ref:TunnelProxyError"}}},
        {"TunnelProxy.Ping", {{"timestamp", "UInt"}}, {{"timestamp", "UInt"}}},
    };
    return m;
}
const std::vector<Method> &notes()
{
    static const std::vector<Method> m = {
        {"TunnelProxy.ClientConnected", {{"clientName", "String"}, {"clientUuid", "String"}, {"clientPeerAddress", "String"}, {"socketAddress", "UInt"}}, {}},
        {"TunnelProxy.ClientDisconnected", {{"socketAddress", "UInt"}}, {}},
    };
    return m;
}
QVariantMap mapOf(const std::vector<Param> &ps)
{
    QVariantMap m;
    for (const Param &p : ps)
        m[p.name] = QString(p.type);
    return m;
}
QString shown(const QVariant &v) { return QString(QJsonDocument::fromVariant(v).toJson(QJsonDocument::Compact)).left(200); }

// a value against a listed type
bool fits(const QVariant &v, const QString &type, const QVariantMap &types)
{
    if (type.startsWith("$ref:"))
        return types.value(type.mid(5)).toList().contains(v) && v.type() == QVariant::String;
    if (type == "String")
        return v.type() == QVariant::String;
    if (type == "Uuid")
        return v.type() == QVariant::String && !QUuid(v.toString()).isNull();
    if (type == "Bool")
        return v.type() == QVariant::Bool;
    if (type == "Object")
        return v.type() == QVariant::Map;
    bool num = v.type() == QVariant::Double || v.type() == QVariant::LongLong || v.type() == QVariant::ULongLong || v.type() == QVariant::Int || v.type() == QVariant::UInt;
    if (type == "UInt")
        return num && v.toDouble() >= 0 && v.toDouble() == double(v.toLongLong());
    return type == "Int" ? num && v.toDouble() == double(v.toLongLong()) : type == "Double" ? num : type == "Variant";
}
QString misfit(const QVariantMap &got, const QVariantMap &listed, const QVariantMap &types)
{
    for (const QString &k : listed.keys())
        if (!got.contains(k) && !k.startsWith("o:"))
            return "lacks " + k;
    for (const QString &k : got.keys()) {
        QString l = listed.contains(k) ? k : "o:" + k;
        if (!listed.contains(l))
            return "has " + k + ", which is not listed";
        if (!fits(got.value(k), listed.value(l).toString(), types))
            return QString("has %1 = %2, listed as %3").arg(k, shown(QVariantMap{{"v", got.value(k)}}), listed.value(l).toString());
    }
    return QString();
}

struct Api {
    bool ok = false;
    QVariantMap methods, types, notifications;
};
Api introspect(Fix &f, Conn *c, bool framed)
{
    QByteArray r = ref::request(77, "RemoteProxy.Introspect");
    c->sendRaw(framed ? ref::frame(0, r) : r);
    f.settle();
    Api a;
    auto ev = c->take();
    f.ctx.step();
    if (ev.size() != 1 || ev[0].kind != Event::Response || !ev[0].ok || ev[0].id != 77) {
        f.ctx.fail("api:introspect", "Introspect is not answered: " + (ev.empty() ? QString("nothing") : QString(ev[0].canonical())));
        return a;
    }
    a.ok = true;
    a.methods = ev[0].params.value("methods").toMap();
    a.types = ev[0].params.value("types").toMap();
    a.notifications = ev[0].params.value("notifications").toMap();
    f.ctx.observe(QJsonDocument::fromVariant(ev[0].params).toJson());
    return a;
}

bool described(Ctx &x, const Api &a)
{
    QStringList names;
    for (const Method &m : api()) {
        names << m.name;
        QVariantMap d = a.methods.value(m.name).toMap();
        if (d.isEmpty() || d.value("description").toString().isEmpty())
            return x.fail("api:listed", QString("%1 is not listed").arg(m.name)), false;
        if (d.value("params").toMap() != mapOf(m.params))
            return x.fail("api:params", QString("%1 is listed with the parameters %2").arg(m.name, shown(d.value("params")))), false;
        if (d.value("returns").toMap() != mapOf(m.returns))
            return x.fail("api:returns", QString("%1 is listed with the result %2").arg(m.name, shown(d.value("returns")))), false;
    }
    for (const QString &n : a.methods.keys())
        if (!names.contains(n))
            return x.fail("api:listed", n + " is listed and is not known"), false;
    for (const Method &m : notes())
        if (a.notifications.value(m.name).toMap().value("params").toMap() != mapOf(m.params))
            return x.fail("api:notifications", QString("%1 is listed as %2").arg(m.name, shown(a.notifications.value(m.name)))), false;
    QSet<QString> types;
    for (const QVariant &v : a.types.value("BasicType").toList())
        types.insert(v.toString());
    for (const QVariantMap &all : {a.methods, a.notifications})
        for (const QVariant &d : all)
            for (const char *part : {"params", "returns"})
                for (const QVariant &t : d.toMap().value(part).toMap()) {
                    QString s = t.toString();
                    if (s.startsWith("$ref:") ? a.types.value(s.mid(5)).toList().isEmpty() : !types.contains(s))
                        return x.fail("api:types", s + " is used and not listed"), false;
                }
    return true;
}

// ---- values -------------------------------------------------------------------------------------
enum Value { Good, Other, Absent, Misspelled, IsObject, IsArray, Wrong, kValues };
const char *kValueNames[] = {"good", "another good one", "absent", "misspelled", "an object", "an array", "of another type"};
bool possible(const Param &p, Value v) { return v != Wrong || QString(p.type) == "Uuid"; } // text stands for a number and the other way round
bool refusable(Value v) { return v >= Absent; }
void put(QVariantMap &m, const Param &p, Value v, bool server)
{
    QString t = p.type, n = p.name;
    QVariant good, other, wrong = 5;
    if (t == "String") {
        good = "a name";
        other = QString();
    } else if (t == "Uuid") {
        bool own = n == "clientUuid" || server;
        good = uuidOf(own ? 60 : 1).toString();
        other = uuidOf(own ? 61 : 62).toString(QUuid::WithoutBraces);
    } else {
        good = 7;
        other = 4294967295.0;
    }
    if (v == Absent)
        return;
    if (v == Misspelled)
        m[n.left(1).toUpper() + n.mid(1)] = good;
    else
        m[n] = v == Good ? good : v == Other ? other : v == IsObject ? QVariant(QVariantMap{{"a", 1}}) : v == IsArray ? QVariant(QVariantList{good}) : wrong;
}

void runCall(Ctx &x, Transport t, bool asServer, const Method &m, const std::vector<Value> &vals, const QString &extra)
{
    Fix f(x, optsFor({t}));
    Conn *srv = f.server(compatible(t, Tcp) ? Tcp : Unix, 1);
    Conn *asking = f.fresh(compatible(t, Tcp) ? Tcp : Unix);
    Conn *c = asServer ? f.server(t, 30) : f.fresh(t);
    if (x.failed)
        return;
    Api a = introspect(f, asking, false);
    f.drop(asking);
    f.settle();
    if (!a.ok)
        return;
    QVariantMap p;
    bool refused = !extra.isNull();
    for (size_t i = 0; i < vals.size(); ++i) {
        put(p, m.params[i], vals[i], QString(m.name).endsWith("RegisterServer"));
        refused = refused || refusable(vals[i]);
    }
    if (!extra.isNull())
        p[extra] = m.params.empty() ? QVariant("1") : p.value(m.params[0].name, "1");
    QByteArray r = ref::request(12, m.name, p);
    c->sendRaw(asServer ? ref::frame(0, r) : r);
    f.settle();
    auto ev = c->take();
    x.step();
    if (ev.empty() || ev[0].kind != Event::Response || ev[0].id != 12)
        return x.fail("api:answer", "the call is not answered");
    x.outcome(ev[0].canonical().left(80));
    if (refused) {
        if (ev[0].ok)
            return x.fail("api:accepted", QString("%1 with %2 is accepted: %3").arg(m.name, shown(p), shown(ev[0].params)));
        if (!c->closed())
            return x.fail("api:open", "the connection stays open behind a call that does not fit");
        // nothing of it has happened
        if (!f.silent(srv, "a call that does not fit"))
            return;
        for (int u : {60, 61}) {
            Conn *again = f.fresh(Unix);
            if (!again->registerServer(uuidOf(u), "again"))
                return x.fail("api:effect", "the identity in a refused call is taken");
        }
        return;
    }
    if (!ev[0].ok)
        return x.fail("api:refused", QString("%1 with %2 is refused: %3").arg(m.name, shown(p), QString(ev[0].data)));
    QString why = misfit(ev[0].params, a.methods.value(m.name).toMap().value("returns").toMap(), a.types);
    if (!why.isEmpty())
        return x.fail("api:result", QString("the result of %1 %2").arg(m.name, why));
    if (QString(m.name).endsWith("Ping") && ev[0].params.value("timestamp").toDouble() != p.value("timestamp").toDouble())
        return x.fail("api:ping", "another time comes back");
    // what it makes the proxy tell a server is listed as well
    if (ev[0].error == "TunnelProxyErrorNoError" && QString(m.name).endsWith("RegisterClient"))
        f.drop(c);
    f.settle();
    int told = 0;
    for (const Event &e : srv->take()) {
        ++told;
        if (e.kind != Event::Notification || !a.notifications.contains(e.method))
            return x.fail("api:note", "not listed: " + QString(e.canonical()).left(200));
        why = misfit(e.params, a.notifications.value(e.method).toMap().value("params").toMap(), a.types);
        if (!why.isEmpty())
            return x.fail("api:note", QString("the notification %1 %2").arg(e.method, why));
    }
    if (told != (ev[0].error == "TunnelProxyErrorNoError" && QString(m.name).endsWith("RegisterClient") ? 2 : 0))
        return x.fail("api:note", QString("%1 notifications").arg(told));
}

void fill(ListCheck &l, bool thorough)
{
    for (Transport t : kAll)
        for (int moment = 0; moment < 4; ++moment) {
            if (moment >= 2 && (t == Ws || t == Wss))
                continue; // a web socket has no frames
            l.add(QString("the description on %1, %2").arg(transportName(t), QStringList{"at once", "later", "as a server", "as a server with a client"}[moment]), [=](Ctx &x) {
                Fix f(x, optsFor({t}));
                Conn *c = moment >= 2 ? f.server(t, 1) : f.fresh(t);
                if (moment == 1)
                    for (int i = 0; i < 3; ++i)
                        if (!introspect(f, c, false).ok)
                            return;
                if (moment == 3)
                    f.client(t, 11, 1, c, new int);
                if (x.failed)
                    return;
                Api a = introspect(f, c, moment >= 2);
                if (a.ok)
                    described(x, a);
            });
        }
    for (Transport t : kAll)
        for (bool asServer : {false, true}) {
            if (asServer && (t == Ws || t == Wss))
                continue;
            for (const Method &m : api()) {
                std::vector<std::vector<Value>> all{{}};
                for (const Param &p : m.params) {
                    std::vector<std::vector<Value>> next;
                    for (auto &s : all)
                        for (int v = 0; v < kValues; ++v)
                            if (possible(p, Value(v))) {
                                next.push_back(s);
                                next.back().push_back(Value(v));
                            }
                    all = next;
                }
                for (auto &s : all) {
                    int odd = 0;
                    QStringList names;
                    for (size_t i = 0; i < s.size(); ++i) {
                        odd += refusable(s[i]);
                        names << QString("%1 %2").arg(m.params[i].name, kValueNames[s[i]]);
                    }
                    if (odd > 1 && !thorough && (t == Tls || t == Wss || asServer))
                        continue; // two wrong ones at once: in the clear is enough for the quick run
                    if (QString(m.name).endsWith("RegisterServer") && (t == Ws || t == Wss) && !odd)
                        continue; // no role for a web socket
                    std::vector<QString> extras{QString(), "more"};
                    if (!odd) {
                        for (const QString &n : {QString(""), QString("id"), QString("params"), QString("token")})
                            extras.push_back(n);
                        for (const Param &p : m.params)
                            for (const QString &n : {QString(p.name).toUpper(), QString(p.name).left(1).toUpper() + QString(p.name).mid(1), "o:" + QString(p.name), QString(p.name) + " ", QString(p.name) + "2"})
                                extras.push_back(n);
                    }
                    for (const QString &extra : extras)
                        l.add(QString("%1 on %2%3: %4%5").arg(m.name, transportName(t), asServer ? " by a server" : "", names.join(", "), extra.isNull() ? QString() : ", also '" + extra + "'"), [=](Ctx &x) { runCall(x, t, asServer, m, s, extra); });
                }
            }
        }
    // every other name
    QStringList listed, spaces{"RemoteProxy", "TunnelProxy", "Engine", "JsonHandler", ""}, methods;
    for (const Method &m : api())
        listed << m.name;
    for (const Method &m : notes())
        methods << QString(m.name).section('.', 1);
    for (const QString &n : listed)
        methods << n.section('.', 1);
    for (const QString &n : QStringList(methods))
        methods << n.toLower() << n + "()" << n.left(n.size() - 1) << n + "s";
    methods << "destroyed" << "objectNameChanged" << "deleteLater" << "_q_reregisterTimers" << "asyncReplyFinished" << "TunnelEstablished" << "introspect" << "name" << "hasMethod" << "validateParams" << "setup" << "" << "*";
    auto refused = [&l](const QString &full, Transport t, bool asServer, const Method *like, bool params) {
        l.add(QString("'%1' on %2%3%4").arg(full, transportName(t), asServer ? " by a server" : "", params ? like ? " with good parameters" : " with parameters" : ""), [=](Ctx &x) {
            Fix f(x, optsFor({t}));
            Conn *srv = f.server(Unix, 1), *c = asServer ? f.server(t, 30) : f.fresh(t);
            if (x.failed)
                return;
            QVariantMap p;
            if (like)
                for (const Param &q : like->params)
                    put(p, q, Good, QString(like->name).endsWith("RegisterServer"));
            else if (params)
                p = regClient(uuidOf(60), uuidOf(1), "x");
            QByteArray r = ref::request(12, full, p);
            c->sendRaw(asServer ? ref::frame(0, r) : r);
            f.settle();
            auto ev = c->take();
            x.step();
            if (ev.size() != 1 || ev[0].kind != Event::Response || ev[0].ok || ev[0].id != 12)
                return x.fail("api:unlisted", full + " is not listed and is not refused");
            x.outcome(ev[0].canonical().left(80));
            if (!c->closed())
                return x.fail("api:open", "the connection stays open behind a call that is not listed");
            f.silent(srv, "a call that is not listed");
        });
    };
    for (Transport t : {Tcp, Unix, Ws})
        for (const QString &s : spaces)
            for (const QString &n : methods) {
                QString full = s + "." + n;
                if (listed.contains(full))
                    continue;
                for (bool params : {false, true})
                    refused(full, t, false, nullptr, params);
            }
    // names that resemble a listed one, with what that one takes
    for (Transport t : kAll)
        for (bool asServer : {false, true}) {
            if (asServer && (t == Ws || t == Wss))
                continue;
            for (const Method &m : api()) {
                QString full = m.name, space = full.section('.', 0, 0), name = full.section('.', 1);
                for (const QString &n : {space + ".v2." + name, space + ".." + name, "." + full, full + ".", full + "." + name, space + "." + full, full + " ", " " + full, full + "\n", space + "/" + name, space + ":" + name, space + "::" + name, space + " . " + name,
                         space, name, name + "." + space, full.toLower(), full.toUpper(), space + "." + name.left(1).toLower() + name.mid(1), space.left(1).toLower() + space.mid(1) + "." + name, full + QChar(0), full + QChar(0) + "x", full + "(QVariantMap)", full + "(QVariantMap,TransportClient*)", QString(full).replace('e', QChar(0x0435)), full + "," + full})
                    refused(n, t, asServer, &m, true);
            }
        }
}

} // namespace

static CheckReg r30("C30", [] { return new ListCheck("Introspect on every transport at four moments; every method with every combination of seven kinds of value (good, absent, misspelled, wrong) of its parameters, with and without surplus ones, by new connections on five transports and by servers on three; every other name of two spaces and beyond", fill); });

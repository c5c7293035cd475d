// C29 the tunnel client program: as a server and as a client of a real proxy
#include "client.h"

#include <QSslConfiguration>

#include <QCoreApplication>
#include <QDir>
#include <QFile>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

int tunnelClientMain(int argc, char **argv);
extern bool g_program;

namespace {

enum Code { Good = 0, Wrong = 70, EndedEarly = 79 };

// One run of the program in a child process. The steps are taken one by one whenever it waits for something.
struct Scene {
    Ctx &ctx;
    World w;
    std::vector<std::function<void()>> steps;
    size_t at = 0;
    QString bad;
    std::vector<std::unique_ptr<Conn>> c; // of the harness, by slot
    QMap<int, quint16> address;
    QString out;
    int hellos = 0;

    Scene(Ctx &x) : ctx(x), w(x) { c.resize(4); }
    void need(bool ok, const QString &what)
    {
        if (!ok && bad.isEmpty())
            bad = QString("step %1: %2").arg(at).arg(what);
    }
    QString printed()
    {
        fflush(stdout);
        QFile f(out);
        f.open(QIODevice::ReadOnly);
        return QString::fromUtf8(f.readAll());
    }
    // what the proxy knows of the program: it is the server or client with this UUID
    QVariantMap serverSeen()
    {
        QVariantList l = w.monitor(true).value("tunnelProxyStatistic").toMap().value("tunnelConnections").toList();
        return l.isEmpty() ? QVariantMap() : l[0].toMap();
    }
    int connections() { return w.monitor(true).value("tunnelProxyStatistic").toMap().value("totalClientCount").toInt(); }
    void pass(int ms)
    {
        for (int t = 0; t < ms; t += 500) {
            w.advance(500);
            w.settle();
        }
    }
    void idle()
    {
        w.settle();
        if (bad.isEmpty() && at < steps.size()) {
            steps[at]();
            at++;
            return;
        }
        finish(bad.isEmpty() ? Good : Wrong, bad);
    }
    static QString report;
    static void finish(int code, const QString &what)
    {
        fflush(stdout);
        QFile f(report);
        f.open(QIODevice::WriteOnly | QIODevice::Truncate);
        f.write(what.toUtf8());
        f.close();
        _exit(code);
    }
};
QString Scene::report;
std::function<void()> g_begin;

struct Result {
    int code = -1;
    QString text;
};

Result run(Ctx &ctx, const ServerOptions &o, bool listening, std::vector<QByteArray> args, const std::function<void(Scene &)> &story)
{
    QString dir = scratchDir() + "/tunnelclient";
    QDir(dir).removeRecursively();
    QDir().mkpath(dir);
    QString rep = dir + "/report", out = dir + "/out";
    pid_t pid = forkChild();
    if (pid == 0) {
        g_program = true;
        ::dup2(::open(out.toUtf8().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 1);
        ::dup2(::open((dir + "/err").toUtf8().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 2);
        Scene::report = rep;
        qApp->~QCoreApplication();
        g_disp = new SimDispatcher;
        QCoreApplication::setEventDispatcher(g_disp);
        static Scene *s = new Scene(ctx);
        s->out = out;
        s->w.dir = dir;
        // the proxy is there before the program does anything, but needs an application object of its own
        g_begin = [=] {
            if (listening && !s->w.start(o))
                Scene::finish(Wrong, "setup: no proxy");
            story(*s);
            g_idle = [] { s->idle(); };
        };
        qAddPreRoutine([] { g_begin(); });
        args.insert(args.begin(), "nymea-remoteproxy-tunnelclient");
        std::vector<char *> argv;
        for (QByteArray &a : args)
            argv.push_back(a.data());
        argv.push_back(nullptr);
        int code = tunnelClientMain((int)args.size(), argv.data());
        Scene::finish(EndedEarly, QString("it ended by itself with %1").arg(code));
    }
    int st = waitChild(pid, 50);
    Result r;
    r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    QFile f(rep);
    if (f.open(QIODevice::ReadOnly))
        r.text = QString::fromUtf8(f.readAll());
    if (r.code == 99 || r.code >= 1000) {
        QFile g(dir + "/err");
        if (g.open(QIODevice::ReadOnly))
            for (const QByteArray &line : g.readAll().split('\n'))
                if (line.contains("ERROR: AddressSanitizer") || (line.contains(" in ") && line.contains("#") && line.contains("/tunnelclient/")))
                    r.text += QString::fromUtf8(line).section("ERROR: ", -1).left(160) + " ";
    }
    ctx.step();
    ctx.observe(QByteArray::number(r.code) + r.text.toUtf8());
    ctx.outcome(QByteArray::number(r.code));
    return r;
}

void judge(Ctx &ctx, const Result &r)
{
    if (r.code == Good)
        return;
    if (r.code == Wrong)
        return ctx.fail("tunnelclient:" + r.text.section(": ", 1).section(' ', 0, 3), r.text);
    if (r.code == EndedEarly)
        return ctx.fail("tunnelclient:ended", r.text);
    ctx.fail(r.code >= 1000 || r.code == 99 ? "tunnelclient:crash" : "tunnelclient:exit", QString("the program ended with %1: %2").arg(r.code).arg(r.text));
}

QByteArray url(bool tls) { return QString("%1://127.0.0.1:%2").arg(tls ? "ssl" : "tcp").arg(World::kTcpPort).toUtf8(); }

// ---- as a server ------------------------------------------------------------------------------------------
enum ServeOp { SvJoinA, SvJoinB, SvSendA, SvSendB, SvLeaveA, SvLeaveB, SvRestart, SvWait, SvCount };
struct ServeModel {
    bool in[2] = {false, false};
    bool up = true; // registered by now
    bool possible(int o) const
    {
        switch (o) {
        case SvJoinA:
        case SvJoinB:
            return up && !in[o - SvJoinA];
        case SvSendA:
        case SvSendB:
            return in[o - SvSendA];
        case SvLeaveA:
        case SvLeaveB:
            return in[o - SvLeaveA];
        }
        return true;
    }
    void apply(int o)
    {
        if (o == SvJoinA || o == SvJoinB)
            in[o - SvJoinA] = true;
        if (o == SvLeaveA || o == SvLeaveB)
            in[o - SvLeaveA] = false;
        if (o == SvRestart)
            in[0] = in[1] = up = false;
        if (o == SvWait)
            up = true;
    }
};

std::function<void(Scene &)> serve(std::vector<int> ops, bool echo, const ServerOptions &o, QString name, QUuid uuid)
{
    return [=](Scene &s) {
        auto check = [&s, name, uuid](bool up, bool in0, bool in1) {
            QVariantMap m = s.serverSeen();
            if (up) {
                s.need(!m.isEmpty(), "the program is not registered at the proxy as a server");
                s.need(m.value("name").toString() == name, "registered with another name: " + m.value("name").toString());
                s.need(uuid.isNull() ? !m.value("serverUuid").toUuid().isNull() : m.value("serverUuid").toUuid() == uuid, "registered with another UUID: " + m.value("serverUuid").toString());
                s.need(m.value("clientConnections").toList().size() == in0 + in1, "the proxy knows another number of clients");
            }
            for (int k = 0; k < 2; ++k)
                if (k ? in1 : in0)
                    s.need(s.c[k] && !s.c[k]->closed(), "the connection of a client is closed");
        };
        s.steps.push_back([&s, check] { check(true, false, false); });
        ServeModel m;
        int n = 0;
        for (int op : ops) {
            m.apply(op);
            ++n;
            s.steps.push_back([&s, op, echo, o, n, m, check] {
                if (op == SvJoinA || op == SvJoinB) {
                    int k = op - SvJoinA;
                    QUuid me = uuidOf(20 + k + 2 * n);
                    QUuid srv = s.serverSeen().value("serverUuid").toUuid();
                    s.c[k].reset(new Conn(s.w, k ? Unix : o.tls ? Tls : Tcp));
                    s.need(s.c[k]->registerClient(me, srv, QString("guest %1").arg(n)), "a client is not let in");
                    s.w.settle();
                    s.need(s.printed().contains(QString("guest %1").arg(n)) && s.printed().contains(me.toString()), "a client that came is not shown");
                } else if (op == SvSendA || op == SvSendB) {
                    int k = op - SvSendA;
                    QByteArray d = k ? QByteArray("\xC0\xDB\x00{\n", 5) + QByteArray::number(n) : pattern(3000, n);
                    s.c[k]->sendRaw(d);
                    s.w.settle();
                    QByteArray got = Fix::data(s.c[k]->take());
                    s.need(got == (echo ? d : QByteArray()), QString("a client sent %1 bytes and got back %2").arg(d.size()).arg(got.size()));
                    if (s.c[1 - k] && !s.c[1 - k]->closed())
                        s.need(s.c[1 - k]->take().empty(), "another client received something");
                } else if (op == SvLeaveA || op == SvLeaveB) {
                    s.c[op - SvLeaveA]->close();
                    s.c[op - SvLeaveA].reset();
                    s.w.settle();
                } else if (op == SvRestart) {
                    for (auto &x : s.c)
                        x.reset();
                    s.w.stop();
                    s.w.settle();
                    s.w.start(o);
                } else {
                    s.pass(10000);
                }
                check(m.up, m.in[0], m.in[1]);
            });
        }
    };
}

SequenceCheck *c29Serve(bool echo, bool tls)
{
    SequenceCheck *s = new SequenceCheck;
    s->name = QString("server%1%2").arg(echo ? " that echoes" : "", tls ? " with TLS" : "");
    s->ops = QStringList{"A comes", "B comes", "A sends", "B sends", "A leaves", "B leaves", "the proxy is started anew", "10 s pass"};
    s->depth = 4;
    s->depthThorough = 6;
    s->boundsText = "all sequences of %1 operations of {%2} that the model allows";
    s->possible = [](const std::vector<int> &p, int o) {
        ServeModel m;
        for (int x : p)
            m.apply(x);
        return m.possible(o);
    };
    s->execute = [=](const std::vector<int> &ops, Ctx &x) {
        ServerOptions o;
        o.tls = tls;
        std::vector<QByteArray> a = {"-s", "-u", url(tls), "-n", "the name", "--uuid", uuidOf(5).toString().toUtf8()};
        if (echo)
            a.push_back("-r");
        if (tls)
            a.push_back("-i");
        judge(x, run(x, o, true, a, serve(ops, echo, o, "the name", uuidOf(5))));
    };
    return s;
}

// ---- as a client --------------------------------------------------------------------------------------------
enum VisitOp { ViDown, ViWait, ViWaitLong, ViKick, ViServerLeaves, ViServerComes, ViRestart, ViCount };
struct VisitModel {
    bool in = true, server = true;
    bool possible(int o) const
    {
        switch (o) {
        case ViDown:
        case ViKick:
            return in;
        case ViServerLeaves:
            return server;
        case ViServerComes:
            return !server;
        }
        return true;
    }
    void apply(int o)
    {
        if (o == ViKick)
            in = false;
        if (o == ViServerLeaves || o == ViRestart)
            in = server = false;
        if (o == ViServerComes)
            server = true;
    }
};

std::function<void(Scene &)> visit(std::vector<int> ops, bool random, const ServerOptions &o, QString name, QUuid uuid, QUuid server)
{
    return [=](Scene &s) {
        // what the program sent since the last time, as seen by the server; registrations and ends apart
        auto taken = [&s](QByteArray *data, int *came, int *left) {
            *came = *left = 0;
            if (!s.c[0])
                return;
            for (const Event &e : s.c[0]->take()) {
                if (e.kind == Event::Data)
                    *data += e.data;
                else if (e.method == "TunnelProxy.ClientConnected") {
                    ++*came;
                    s.address[0] = (quint16)e.params.value("socketAddress").toInt();
                } else if (e.method == "TunnelProxy.ClientDisconnected")
                    ++*left;
            }
        };
        // (the server was registered before the program started)
        s.c[0].reset(new Conn(s.w, Unix));
        if (!s.c[0]->registerServer(server, "home"))
            Scene::finish(Wrong, "setup: no server");
        s.steps.push_back([&s, taken, name, uuid] {
            QByteArray d;
            int came, left;
            taken(&d, &came, &left);
            s.need(came == 1 && left == 0, QString("the program came %1 times to the server").arg(came));
            QVariantMap m = s.serverSeen().value("clientConnections").toList().value(0).toMap();
            s.need(m.value("name").toString() == name, "registered with another name: " + m.value("name").toString());
            s.need(uuid.isNull() ? !m.value("clientUuid").toUuid().isNull() : m.value("clientUuid").toUuid() == uuid, "registered with another UUID: " + m.value("clientUuid").toString());
        });
        VisitModel m;
        int n = 0;
        for (int op : ops) {
            VisitModel before = m;
            m.apply(op);
            ++n;
            s.steps.push_back([=, &s] {
                QByteArray text = "message " + QByteArray::number(n) + " ";
                switch (op) {
                case ViDown:
                    s.c[0]->sendFrame(s.address[0], text);
                    break;
                case ViWait:
                    s.pass(500);
                    break;
                case ViWaitLong:
                    s.pass(5000);
                    break;
                case ViKick:
                    s.c[0]->request("TunnelProxy.DisconnectClient", discParams(s.address[0]));
                    break;
                case ViServerLeaves:
                    s.c[0]->close();
                    s.c[0].reset();
                    break;
                case ViServerComes:
                    s.c[0].reset(new Conn(s.w, Unix));
                    s.need(s.c[0]->registerServer(server, "home"), "setup: the server does not come back");
                    break;
                case ViRestart:
                    s.c[0].reset();
                    s.w.stop();
                    s.w.settle();
                    s.w.start(o);
                    break;
                }
                s.w.settle();
                QByteArray d;
                int came, left;
                taken(&d, &came, &left);
                if (op == ViDown && !random)
                    s.need(s.printed().contains(QString::fromUtf8(text)), "what the server sent is not shown");
                if (!random || !before.in)
                    s.need(d.isEmpty(), QString("the program sends %1 bytes without being told to").arg(d.size()));
                else if (op == ViWaitLong)
                    s.need(!d.isEmpty(), "the program sends no random data");
                s.need(came == 0, "the program comes again");
                s.need(left == (op == ViKick ? 1 : 0), "the end of the connection is not seen");
                int clients = s.w.monitor(true).value("tunnelProxyStatistic").toMap().value("clientConnectionsCount").toInt();
                s.need(clients == (m.in ? 1 : 0), QString("the proxy has %1 clients").arg(clients));
                s.need(s.connections() == m.in + m.server, QString("the proxy has %1 connections").arg(s.connections()));
            });
        }
    };
}

SequenceCheck *c29Visit(bool random, bool tls)
{
    SequenceCheck *s = new SequenceCheck;
    s->name = QString("client%1%2").arg(random ? " with random data" : "", tls ? " with TLS" : "");
    s->ops = QStringList{"the server sends", "0.5 s pass", "5 s pass", "the server disconnects it", "the server leaves", "the server comes back", "the proxy is started anew"};
    s->depth = 4;
    s->depthThorough = 6;
    s->boundsText = "all sequences of %1 operations of {%2} that the model allows";
    s->possible = [](const std::vector<int> &p, int o) {
        VisitModel m;
        for (int x : p)
            m.apply(x);
        return m.possible(o);
    };
    s->execute = [=](const std::vector<int> &ops, Ctx &x) {
        ServerOptions o;
        o.tls = tls;
        std::vector<QByteArray> a = {"-c", "-u", url(tls), "-n", "the name", "--uuid", uuidOf(5).toString().toUtf8(), "--server-uuid", uuidOf(6).toString().toUtf8()};
        if (random)
            a.push_back("-r");
        if (tls)
            a.push_back("-i");
        judge(x, run(x, o, true, a, visit(ops, random, o, "the name", uuidOf(5), uuidOf(6))));
    };
    return s;
}

// ---- arguments ----------------------------------------------------------------------------------------------
ListCheck *c29Arguments()
{
    return new ListCheck("all combinations of role (server, client, neither, both), name and UUID given or not, server UUID (given, missing, unreadable), random data, verbosity, short and long options; URLs of every kind; a proxy with an untrusted certificate with and without -i", [](ListCheck &l, bool) {
        for (int role = 0; role < 4; ++role) // server, client, neither, both
            for (int name = 0; name < 2; ++name)
                for (int id = 0; id < 2; ++id)
                    for (int to = 0; to < 3; ++to)
                        for (int random = 0; random < 2; ++random)
                            for (int verbose = 0; verbose < 3; ++verbose)
                                for (int longer = 0; longer < 2; ++longer)
                                    l.add(QString("role %1, name %2, UUID %3, server UUID %4, random %5, verbosity %6, %7").arg(role).arg(name).arg(id).arg(to).arg(random).arg(verbose).arg(longer ? "long" : "short"), [=](Ctx &x) {
                                        std::vector<QByteArray> a = {longer ? "--url" : "-u", url(false)};
                                        if (role == 0 || role == 3)
                                            a.push_back(longer ? "--server" : "-s");
                                        if (role == 1 || role == 3)
                                            a.push_back(longer ? "--client" : "-c");
                                        if (name) {
                                            a.push_back(longer ? "--name" : "-n");
                                            a.push_back("Jane \xc3\xa4 \"x\" {y}");
                                        }
                                        if (id) {
                                            a.push_back("--uuid");
                                            a.push_back(uuidOf(5).toString().toUtf8());
                                        }
                                        if (to != 1) {
                                            a.push_back("--server-uuid");
                                            a.push_back(to == 2 ? QByteArray("nobody") : uuidOf(6).toString().toUtf8());
                                        }
                                        if (random)
                                            a.push_back(longer ? "--random" : "-r");
                                        if (verbose)
                                            a.push_back(verbose == 1 ? "--verbose" : "--very-verbose");
                                        bool good = role == 0 || role == 2 || (role == 1 && to == 0);
                                        QString n = name ? QString::fromUtf8("Jane \xc3\xa4 \"x\" {y}") : role == 1 ? "Client connection" : "Server connection";
                                        QUuid u = id ? uuidOf(5) : QUuid();
                                        ServerOptions o;
                                        Result r = run(x, o, true, a, role == 1 ? visit({ViDown, ViWaitLong, ViDown}, random, o, n, u, uuidOf(6)) : serve({SvJoinA, SvSendA, SvLeaveA}, random, o, n, u));
                                        if (good)
                                            judge(x, r);
                                        else if (r.code == 0 || r.code >= 256 || r.code == Wrong || r.code == EndedEarly)
                                            x.fail("tunnelclient:refuses", QString("it should end with a failure, but: %1 %2").arg(r.code).arg(r.text));
                                    });
        // every kind of name and UUID is taken as it is
        for (int role = 0; role < 2; ++role) {
            for (const char *name : {" ", "  two  blanks  ", "-", "x", "\xe5\x8c\x97\xe4\xba\xac", "a\tb", "%1", "\"", "\\", "{", "}", "null", "0"})
                l.add(QString("name '%1' as %2").arg(QString::fromUtf8(name), role ? "client" : "server"), [=](Ctx &x) {
                    std::vector<QByteArray> a = {"-u", url(false), role ? "-c" : "-s", "-n", name, "--server-uuid", uuidOf(6).toString().toUtf8()};
                    judge(x, run(x, ServerOptions(), true, a, role ? visit({ViDown}, false, ServerOptions(), QString::fromUtf8(name), QUuid(), uuidOf(6)) : serve({SvJoinA, SvSendA}, false, ServerOptions(), QString::fromUtf8(name), QUuid())));
                });
            for (const char *id : {"00000000-0000-0000-0000-000000000001", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "{6fa459ea-ee8a-3ca4-894e-db77e160355e}", "886313E1-3B8A-5372-9B90-0C9AEE199E5D", "ffffffff-ffff-ffff-ffff-ffffffffffff", "{00000000-0000-0000-8000-000000000000}", "01234567-89ab-7def-0123-456789abcdef"})
                for (int which = 0; which < 2; ++which)
                    l.add(QString("%1UUID %2 as %3").arg(which ? "server " : "", id, role ? "client" : "server"), [=](Ctx &x) {
                        if (!role && which)
                            return; // no such thing
                        QUuid me = which ? QUuid() : QUuid(id), home = which ? QUuid(id) : uuidOf(6);
                        std::vector<QByteArray> a = {"-u", url(false), role ? "-c" : "-s", "-n", "n", "--server-uuid", which ? QByteArray(id) : home.toString().toUtf8()};
                        if (!which) {
                            a.push_back("--uuid");
                            a.push_back(id);
                        }
                        judge(x, run(x, ServerOptions(), true, a, role ? visit({ViDown}, false, ServerOptions(), "n", me, home) : serve({SvJoinA, SvSendA}, false, ServerOptions(), "n", me)));
                    });
        }
        for (const char *u : {"ssl://127.0.0.1:99999", "::", "ssl://[::1"})
            for (int role = 0; role < 2; ++role)
                l.add(QString("URL %1 as %2").arg(u, role ? "client" : "server"), [=](Ctx &x) {
                    std::vector<QByteArray> a = {"-u", u, role ? "-c" : "-s", "--server-uuid", uuidOf(6).toString().toUtf8()};
                    Result r = run(x, ServerOptions(), true, a, [](Scene &) {});
                    if (r.code == 0 || r.code >= 256 || r.code == Wrong || r.code == EndedEarly)
                        x.fail("tunnelclient:refuses", QString("it should end with a failure, but: %1 %2").arg(r.code).arg(r.text));
                });
        for (const char *u : {"--nonsense", "-x"})
            l.add(QString("option %1").arg(u), [=](Ctx &x) {
                Result r = run(x, ServerOptions(), true, {"-u", url(false), u}, [](Scene &) {});
                if (r.code == 0 || r.code >= 256 || r.code == Wrong || r.code == EndedEarly)
                    x.fail("tunnelclient:refuses", QString("it should end with a failure, but: %1 %2").arg(r.code).arg(r.text));
            });
        for (int role = 0; role < 2; ++role)
            for (int insecure = 0; insecure < 3; ++insecure) {
                l.add(QString("untrusted certificate, %1, %2").arg(role ? "client" : "server", insecure == 0 ? "without -i" : insecure == 1 ? "-i" : "--ignore-ssl"), [=](Ctx &x) {
                    ServerOptions o;
                    o.tls = true;
                    std::vector<QByteArray> a = {"-u", url(true), role ? "-c" : "-s", "-n", "n", "--server-uuid", uuidOf(6).toString().toUtf8()};
                    if (insecure)
                        a.push_back(insecure == 1 ? "-i" : "--ignore-ssl");
                    if (insecure)
                        return judge(x, run(x, o, true, a, role ? visit({ViDown}, false, o, "n", QUuid(), uuidOf(6)) : serve({SvJoinA, SvSendA}, false, o, "n", QUuid())));
                    judge(x, run(x, o, true, a, [=](Scene &s) {
                        s.steps.push_back([&s] {
                            s.pass(20000);
                            s.need(s.serverSeen().isEmpty(), "registered over a connection that is not trusted");
                        });
                    }));
                });
                for (const char *kind : {"good", "nameonly", "below", "stranger", "self", "expired", "future", "elsewhere", "both", "purpose", "fake"})
                    l.add(QString("certificate '%1', %2, %3").arg(kind, role ? "client" : "server", insecure == 0 ? "without -i" : insecure == 1 ? "-i" : "--ignore-ssl"), [=](Ctx &x) {
                        QSslConfiguration conf = QSslConfiguration::defaultConfiguration();
                        conf.setCaCertificates(QSslCertificate::fromPath(QString(MC_DIR) + "/certs/trust/ca.pem"));
                        QSslConfiguration::setDefaultConfiguration(conf);
                        ServerOptions o;
                        o.tls = true;
                        o.cert = QString("trust/%1.pem").arg(kind);
                        o.key = QString("trust/%1.key").arg(kind);
                        std::vector<QByteArray> a = {"-u", url(true), role ? "-c" : "-s", "-n", "n", "--server-uuid", uuidOf(6).toString().toUtf8()};
                        if (insecure)
                            a.push_back(insecure == 1 ? "-i" : "--ignore-ssl");
                        if (insecure || !strcmp(kind, "good"))
                            return judge(x, run(x, o, true, a, role ? visit({ViDown}, false, o, "n", QUuid(), uuidOf(6)) : serve({SvJoinA, SvSendA}, false, o, "n", QUuid())));
                        judge(x, run(x, o, true, a, [=](Scene &s) {
                            s.steps.push_back([&s] {
                                s.pass(20000);
                                s.need(s.serverSeen().isEmpty(), "registered over a connection that is not trusted");
                            });
                        }));
                    });
                l.add(QString("TLS with a proxy that has none, %1").arg(role ? "client" : "server"), [=](Ctx &x) {
                    std::vector<QByteArray> a = {"-u", url(true), role ? "-c" : "-s", "-i", "--server-uuid", uuidOf(6).toString().toUtf8()};
                    judge(x, run(x, ServerOptions(), true, a, [=](Scene &s) {
                        s.steps.push_back([&s] {
                            s.pass(20000);
                            s.need(s.serverSeen().isEmpty(), "registered without TLS");
                        });
                    }));
                });
                l.add(QString("no proxy at first, %1").arg(role ? "client" : "server"), [=](Ctx &x) {
                    std::vector<QByteArray> a = {"-u", url(false), role ? "-c" : "-s", "-n", "n", "--server-uuid", uuidOf(6).toString().toUtf8()};
                    judge(x, run(x, ServerOptions(), false, a, [=](Scene &s) {
                        s.steps.push_back([&s, role] {
                            s.pass(20000);
                            s.w.start(ServerOptions());
                            s.pass(10000);
                            s.need(s.serverSeen().isEmpty() == (role == 1), role ? "there is a server" : "the program is not registered at the proxy as a server");
                        });
                    }));
                });
            }
    });
}

// ---- amounts ----------------------------------------------------------------------------------------------
ListCheck *c29Amounts()
{
    return new ListCheck("a server with and without random data, over TCP and TLS, guests on three transports: amounts of 1 to 300000 bytes around the buffer sizes, alone, five in a row, and from two guests at once", [](ListCheck &l, bool thorough) {
        for (bool echo : {true, false})
            for (bool tls : {false, true})
                for (Transport t : {tls ? Tls : Tcp, Unix})
                    for (int size : {1, 255, 1024, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 100000, 300000})
                        for (int times : {1, 5})
                            for (int guests : {1, 2}) {
                                if (!echo && (times > 1 || guests > 1) && !thorough)
                                    continue;
                                if (size > 65537 && times > 1 && !thorough)
                                    continue;
                                l.add(QString("%1%2, %3 x %4 bytes from %5 on %6").arg(echo ? "echo" : "none", tls ? " with TLS" : "").arg(times).arg(size).arg(guests).arg(transportName(t)), [=](Ctx &x) {
                                    ServerOptions o;
                                    o.tls = tls;
                                    std::vector<QByteArray> a = {"-s", "-u", url(tls), "-n", "the name", "--uuid", uuidOf(5).toString().toUtf8()};
                                    if (echo)
                                        a.push_back("-r");
                                    if (tls)
                                        a.push_back("-i");
                                    judge(x, run(x, o, true, a, [=](Scene &s) {
                                        s.steps.push_back([=, &s] {
                                            for (int g = 0; g < guests; ++g) {
                                                s.c[g].reset(new Conn(s.w, g ? Unix : t));
                                                s.need(s.c[g]->registerClient(uuidOf(20 + g), uuidOf(5), "guest"), "a client is not let in");
                                            }
                                            s.w.settle();
                                            QByteArray sent[2], got[2];
                                            for (int i = 0; i < times; ++i)
                                                for (int g = 0; g < guests; ++g) {
                                                    QByteArray d = pattern(size, 3 * i + g);
                                                    sent[g] += d;
                                                    s.c[g]->sendRaw(d);
                                                }
                                            s.w.settle();
                                            for (int g = 0; g < guests; ++g) {
                                                got[g] = Fix::data(s.c[g]->take());
                                                s.need(got[g] == (echo ? sent[g] : QByteArray()), QString("a client sent %1 bytes and got back %2").arg(sent[g].size()).arg(got[g].size()));
                                                s.need(!s.c[g]->closed(), "the connection of a client is closed");
                                            }
                                        });
                                    }));
                                });
                            }
    });
}

} // namespace

static CheckReg r29("C29", [] {
    MultiCheck *m = new MultiCheck;
    for (bool echo : {true, false})
        for (bool tls : {false, true}) {
            SequenceCheck *s = c29Serve(echo, tls);
            if (tls)
                s->depth--, s->depthThorough--;
            m->add(s->name, s);
        }
    for (bool random : {true, false})
        for (bool tls : {false, true}) {
            SequenceCheck *s = c29Visit(random, tls);
            if (tls)
                s->depth--, s->depthThorough--;
            m->add(s->name, s);
        }
    m->add("arguments", c29Arguments());
    m->add("amounts", c29Amounts());
    return m;
});

// C28 the server program: signals and crashes at every point, starts after whatever the last one left
#include "fix.h"

#include "engine.h"

#include <QCoreApplication>
#include <QDir>
#include <QFile>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

int proxyProgramMain(int argc, char **argv); // main() of /repo/server
extern bool g_program;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

namespace {

const int kSignals[] = {SIGTERM, SIGINT, SIGQUIT, SIGHUP};

// ---- points of the program at which something hits it -----------------------------------------------
// Every allocation, release and socket call made by the program (not by the harness) is one.
struct Hit {
    enum Kind { None, Signal, Crash } kind = None;
    int sig = 0;
    qint64 at = -1;       // point
    qint64 call = -1;     // or call that changes what others see: sockets and files
    int sig2 = 0;         // a second signal, so many calls later
    qint64 later = -1;
};
Hit g_hit;
qint64 g_point = 0, g_call = 0;
bool g_points = false, g_struck = false;

void strike(int sig)
{
    if (g_hit.kind == Hit::Crash)
        _exit(90);
    g_struck = true;
    if (getenv("C28_TRACE")) {
        g_points = false;
        void *b[40];
        int n = backtrace(b, 40);
        backtrace_symbols_fd(b, n, 1);
        g_points = true;
    }
    raise(sig);
}
void point()
{
    if (g_points && g_inProgram && g_point++ == g_hit.at)
        strike(g_hit.sig);
}
void onAlloc(const volatile void *, size_t) { point(); }
void onFree(const volatile void *) { point(); }
void onCall()
{
    if (!g_points || !g_inProgram)
        return;
    point();
    qint64 c = g_call++;
    if (g_hit.call < 0)
        return;
    if (c == g_hit.call)
        strike(g_hit.sig);
    else if (g_hit.sig2 && c == g_hit.call + g_hit.later)
        strike(g_hit.sig2);
}

enum Code { Good = 0, Died = 70, StillRuns = 78, EndedEarly = 79, NotServed = 80, CodeNotZero = 81, SocketsLeft = 82, Open = 83, CrashedAsAsked = 90 };

struct Result {
    int code = -1;
    qint64 points = 0, calls = 0;
    QString text;
};

struct Paths {
    QString dir;
    QString conf, un, monitor;
};

// ---- what happens to the program ----------------------------------------------------------------------
struct Want { // which ways in must work
    bool tcp = true, ws = true, un = true, monitor = true;
};

struct Story {
    Ctx &ctx;
    World w;
    Want want;
    int length; // 0: nothing happens, 1: everybody comes, 2: and talks, 3: and leaves
    int at = 0;
    std::vector<std::unique_ptr<Conn>> c;
    QString bad;
    QMap<QUuid, quint16> address;
    int quietTurns = 0;
    std::vector<std::function<void()>> steps;

    Story(Ctx &x, const Want &wa, int n) : ctx(x), w(x), want(wa), length(n) {}

    void need(bool ok, const QString &what)
    {
        if (!ok && bad.isEmpty() && !g_struck)
            bad = what;
    }
    Conn *come(Transport t)
    {
        c.emplace_back(new Conn(w, t));
        return c.back().get();
    }
    static bool has(const std::vector<Event> &ev, const QByteArray &d) { return Fix::data(ev) == d; }

    void build()
    {
        Transport first = want.tcp ? Tcp : want.un ? Unix : Ws;
        bool any = want.tcp || want.un || want.ws;
        if (length >= 1 && any) {
            steps.push_back([=] { need(come(first)->registerServer(uuidOf(1), "one"), QString("the server on %1 is not registered").arg(transportName(first))); });
            std::vector<Transport> ways;
            if (want.tcp)
                ways.push_back(Tcp);
            if (want.un)
                ways.push_back(Unix);
            if (want.ws)
                ways.push_back(Ws);
            for (size_t i = 0; i < ways.size(); ++i)
                steps.push_back([=] {
                    need(come(ways[i])->registerClient(uuidOf(2 + (int)i), uuidOf(1), "client"), QString("the client on %1 is not registered").arg(transportName(ways[i])));
                });
            // (a server on a web socket gets no decodable frames, C15)
            if (length >= 2 && first != Ws)
                for (size_t i = 0; i < ways.size(); ++i)
                    steps.push_back([=] {
                        for (Event &e : c[0]->take())
                            if (e.kind == Event::Notification && e.params.contains("socketAddress"))
                                address[e.params["clientUuid"].toUuid()] = (quint16)e.params["socketAddress"].toInt();
                        c[1 + i]->sendRaw("up");
                        w.settle();
                        need(has(c[0]->take(), "up"), QString("data of the client on %1 does not arrive").arg(transportName(ways[i])));
                        c[0]->sendFrame(address[uuidOf(2 + (int)i)], "down");
                        w.settle();
                        need(has(c[1 + i]->take(), "down"), QString("data for the client on %1 does not arrive").arg(transportName(ways[i])));
                    });
            if (length >= 3)
                steps.push_back([=] {
                    while (c.size() > 1) {
                        size_t k = c.size() % 2;
                        c[k]->close();
                        c.erase(c.begin() + k);
                        w.settle();
                    }
                });
        }
        if (want.monitor)
            steps.push_back([=] {
                bool ok = false;
                w.monitor(true, &ok);
                need(ok, "the monitor is not answered");
            });
    }

    // called whenever the program waits for something
    void idle()
    {
        w.settle();
        if (!bad.isEmpty())
            finish(NotServed, bad);
        if (g_struck) {
            if (quietTurns++ < 3)
                return;
            w.advance(500);
            if (quietTurns > 20)
                finish(StillRuns, "");
            return;
        }
        if (at < (int)steps.size()) {
            steps[at++]();
            return;
        }
        // nothing hit it within the story: the end comes now
        g_struck = true;
        if (g_hit.kind == Hit::Crash)
            _exit(CrashedAsAsked);
        raise(g_hit.sig ? g_hit.sig : SIGTERM);
    }
    static QString report; // file
    static void finish(int code, const QString &what)
    {
        g_points = false;
        QFile f(report);
        f.open(QIODevice::WriteOnly | QIODevice::Truncate);
        f.write(QByteArray::number(g_point) + "\n" + QByteArray::number(g_call) + "\n" + what.toUtf8());
        f.close();
        _exit(code);
    }
};
QString Story::report;

Paths paths(const QString &dir) { return {dir, dir + "/p.conf", dir + "/tunnel.sock", dir + "/monitor.sock"}; }

void writeConfig(const Paths &p, bool tls = false, const QString &more = QString())
{
    QFile f(p.conf);
    f.open(QIODevice::WriteOnly | QIODevice::Truncate);
    QString text = "[ProxyServer]\nname=some proxy\nmonitorSocket=" + p.monitor + "\n" + more + "[SSL]\nenabled=" + (tls ? "true" : "false") + "\ncertificate=" MC_DIR "/certs/cert.pem\ncertificateKey=" MC_DIR
                   "/certs/key.pem\n[UnixSocketServerTunnelProxy]\nunixSocketFileName=" + p.un + "\n";
    f.write(text.toUtf8());
}

// runs the program in a child, hit as given
Result run(Ctx &ctx, const Paths &p, const Hit &hit, const Want &want, int length, const std::function<void()> &before = nullptr, std::vector<QByteArray> args = {})
{
    Result r;
    QString rep = p.dir + "/report", err = p.dir + "/err";
    QFile::remove(rep);
    pid_t pid = forkChild();
    if (pid == 0) {
        g_program = true;
        for (int k : kSignals)
            signal(k, SIG_DFL);
        int null = ::open("/dev/null", O_WRONLY), e = ::open(err.toUtf8().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (!getenv("C28_TRACE"))
            ::dup2(null, 1);
        ::dup2(e, 2);
        Story::report = rep;
        qApp->~QCoreApplication();
        g_disp = new SimDispatcher;
        QCoreApplication::setEventDispatcher(g_disp);
        if (before)
            before();
        static Story *s = new Story(ctx, want, length);
        s->w.dir = p.dir;
        s->build();
        g_idle = [] { s->idle(); };
        g_hit = hit;
        sim::onCall = onCall;
        __sanitizer_install_malloc_and_free_hooks(onAlloc, onFree);
        if (args.empty())
            args = {"-c", p.conf.toUtf8()};
        args.insert(args.begin(), "nymea-remoteproxy");
        std::vector<char *> argv;
        for (QByteArray &a : args)
            argv.push_back(a.data());
        argv.push_back(nullptr);
        g_points = g_inProgram = true;
        int code = proxyProgramMain((int)args.size(), argv.data());
        g_points = g_inProgram = false;
        if (!g_struck)
            Story::finish(EndedEarly, QString("code %1").arg(code));
        if (code != 0)
            Story::finish(CodeNotZero, QString("code %1").arg(code));
        if ((want.un && QFile::exists(p.un)) || (want.monitor && QFile::exists(p.monitor)))
            Story::finish(SocketsLeft, "");
        for (auto &c : s->c) {
            c->peer->pump();
            c->peer->pump();
            if (!c->closed())
                Story::finish(Open, "");
        }
        Story::finish(Good, "");
    }
    int st = waitChild(pid, 50);
    r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    QFile f(rep);
    if (f.open(QIODevice::ReadOnly)) {
        QList<QByteArray> l = f.readAll().split('\n');
        r.points = l.value(0).toLongLong();
        r.calls = l.value(1).toLongLong();
        r.text = QString::fromUtf8(l.value(2));
    }
    if (hit.sig && r.code == 1000 + hit.sig && !QFile::exists(p.un) && !QFile::exists(p.monitor)) {
        r.code = Good; // it does not handle it yet, and has nothing to leave behind
    } else if (r.code == 99 || r.code >= 1000) {
        QFile g(err);
        QStringList frames;
        if (g.open(QIODevice::ReadOnly))
            for (const QByteArray &line : g.readAll().split('\n')) {
                if (line.contains("ERROR: AddressSanitizer"))
                    r.text = QString::fromUtf8(line).section("ERROR: ", 1).section(" on ", 0, 0);
                int q = line.indexOf(" in ");
                if (q > 0 && line.contains("#") && line.contains("remoteproxy::") && frames.size() < 4)
                    frames << QString::fromUtf8(line.mid(q + 4)).section(" /", 0, 0).section("(", 0, 0);
            }
        if (r.code >= 1000)
            r.text += QString(" signal %1").arg(r.code - 1000);
        r.text += " [" + frames.join(" <- ") + "]";
        r.code = Died;
    }
    return r;
}

void judge(Ctx &ctx, const Result &r, const QString &what)
{
    ctx.step();
    ctx.outcome(QByteArray::number(r.code));
    ctx.observe(QByteArray::number(r.code) + " " + r.text.toUtf8());
    switch (r.code) {
    case Good:
        return;
    case Died:
        return ctx.fail("program:crash", what + ": the program crashes: " + r.text);
    case StillRuns:
        return ctx.fail("program:runs", what + ": it does not end");
    case EndedEarly:
        return ctx.fail("program:ends", what + ": it ended by itself, " + r.text);
    case NotServed:
        return ctx.fail("program:serves", what + ": " + r.text);
    case CodeNotZero:
        return ctx.fail("program:code", what + ": it ended with " + r.text);
    case SocketsLeft:
        return ctx.fail("program:sockets", what + ": a socket file is left behind");
    case Open:
        return ctx.fail("program:open", what + ": a connection is still open");
    default:
        return ctx.fail("program:other", what + QString(": exit code %1").arg(r.code));
    }
}

Result undisturbed(int length)
{
    Ctx c;
    QString dir = scratchDir() + "/count";
    QDir().mkpath(dir);
    Paths p = paths(dir);
    writeConfig(p);
    Hit h;
    h.sig = SIGTERM;
    Result r = run(c, p, h, Want(), length);
    QDir(dir).removeRecursively();
    return r;
}

Paths fresh()
{
    QString dir = scratchDir() + "/program";
    QDir(dir).removeRecursively();
    QDir().mkpath(dir);
    return paths(dir);
}

ListCheck *c28Signals()
{
    return new ListCheck("SIGTERM, SIGINT, SIGQUIT and SIGHUP: at every (quick: every fourth) allocation and release of the program from its first line to the end of a story with a server, clients over TCP, unix and web socket, data and a monitor; all four at every socket and file call; two signals up to 3 (thorough: 12) such calls apart; while it waits", [](ListCheck &l, bool thorough) {
        Result n = undisturbed(3);
        for (int k = 0; k < 4; ++k)
            for (int len = 0; len < 4; ++len)
                l.add(QString("signal %1 after story %2").arg(kSignals[k]).arg(len), [=](Ctx &x) {
                    Paths p = fresh();
                    writeConfig(p);
                    Hit h;
                    h.sig = kSignals[k];
                    judge(x, run(x, p, h, Want(), len), "in rest");
                });
        for (qint64 c = 0; c < n.calls; ++c)
            l.add(QString("signals at call %1").arg(c), [=](Ctx &x) {
                for (int k = 0; k < 4 && !x.failed; ++k)
                    for (int d = 0; d <= (thorough ? 12 : 3) && !x.failed; ++d) {
                        Paths p = fresh();
                        writeConfig(p);
                        Hit h;
                        h.kind = Hit::Signal;
                        h.call = c;
                        h.sig = kSignals[k];
                        if (d) {
                            h.later = d;
                            h.sig2 = kSignals[(c + d) % 4];
                        }
                        judge(x, run(x, p, h, Want(), 3), QString("signal %1 at call %2, then %3 after %4").arg(h.sig).arg(c).arg(h.sig2).arg(d));
                    }
            });
        int block = 8;
        for (qint64 a = 0; a < n.points; a += block)
            l.add(QString("a signal at points %1 to %2").arg(a).arg(a + block - 1), [=](Ctx &x) {
                for (qint64 at = a; at < a + block && !x.failed; at += thorough ? 1 : 4) {
                    Paths p = fresh();
                    writeConfig(p);
                    Hit h;
                    h.kind = Hit::Signal;
                    h.sig = kSignals[at / 4 % 4];
                    h.at = at;
                    judge(x, run(x, p, h, Want(), 3), QString("signal %1 at point %2").arg(h.sig).arg(at));
                }
            });
    });
}

// ---- crashes --------------------------------------------------------------------------------------------
ListCheck *c28Crashes()
{
    return new ListCheck("killed before every socket and file call of the same story; the next one serves everything and ends in order; also killed a second time at every call of its start", [](ListCheck &l, bool thorough) {
        Result n = undisturbed(3), start = undisturbed(0);
        for (qint64 c = 0; c <= n.calls; ++c)
            l.add(QString("killed at call %1").arg(c), [=](Ctx &x) {
                for (qint64 again = -1; again < (thorough || c % 8 == 0 ? start.calls : 0) && !x.failed; ++again) {
                    Paths p = fresh();
                    writeConfig(p);
                    Hit h;
                    h.kind = Hit::Crash;
                    h.call = c;
                    Result r = run(x, p, h, Want(), 3);
                    if (r.code != CrashedAsAsked)
                        return judge(x, r, "before it was killed");
                    if (again >= 0) {
                        h.call = again;
                        r = run(x, p, h, Want(), 3);
                        if (r.code != CrashedAsAsked)
                            return judge(x, r, "before it was killed again");
                    }
                    judge(x, run(x, p, Hit(), Want(), 3), QString("killed at call %1 and %2, started again").arg(c).arg(again));
                }
            });
    });
}

// ---- starts with something in the way --------------------------------------------------------------------
const char *kThere[] = {"nothing", "a socket file nobody listens to", "a socket somebody listens to", "a file", "a link to nowhere", "a directory", "a directory with something in it", "no directory to be in"};

void put(const QString &path, int what)
{
    QByteArray b = path.toUtf8();
    switch (what) {
    case 1:
        ::close(sim::rawUnixListen(b.constData()));
        break;
    case 2:
        sim::rawUnixListen(b.constData());
        break;
    case 3: {
        QFile f(path);
        f.open(QIODevice::WriteOnly);
        f.write("x");
        break;
    }
    case 4:
        if (::symlink("/nowhere/at/all", b.constData())) {
        }
        break;
    case 5:
    case 6:
        QDir().mkpath(path + (what == 6 ? "/x" : ""));
        break;
    }
}

ListCheck *c28Starts()
{
    return new ListCheck("started with each of eight things in the way of the tunnel socket and of the monitor socket (nothing, sockets in use or not, files, links, directories, none to be in), the TCP and the web socket port in use or not, in all combinations: what can be served is, and once nothing is in the way the next one serves everything", [](ListCheck &l, bool) {
        for (int a = 0; a < 8; ++a)
            for (int b = 0; b < 8; ++b)
                for (int ports = 0; ports < 4; ++ports)
                    l.add(QString("tunnel socket: %1; monitor: %2; ports in use: %3").arg(kThere[a], kThere[b]).arg(ports), [=](Ctx &x) {
                        Paths p = fresh();
                        QString dir = p.dir;
                        if (a == 7)
                            p.un = p.dir + "/gone/tunnel.sock";
                        if (b == 7)
                            p.monitor = p.dir + "/gone/monitor.sock";
                        writeConfig(p);
                        Want w;
                        w.un = a < 5;
                        w.monitor = b < 5;
                        w.tcp = !(ports & 1);
                        w.ws = !(ports & 2);
                        Result r = run(x, p, Hit(), w, 3, [=] {
                            put(p.un, a);
                            put(p.monitor, b);
                            if (ports & 1)
                                sim::rawListen(World::kTcpPort);
                            if (ports & 2)
                                sim::rawListen(World::kWsPort);
                        });
                        judge(x, r, "with something in the way");
                        if (x.failed)
                            return;
                        for (const QString &s : {dir + "/tunnel.sock", dir + "/monitor.sock"}) {
                            QDir(s).removeRecursively();
                            QFile::remove(s);
                        }
                        p = paths(dir);
                        writeConfig(p);
                        judge(x, run(x, p, Hit(), Want(), 3), "with nothing in the way any more");
                    });
    });
}

ListCheck *c28Arguments()
{
    return new ListCheck("all combinations of a good, missing, unreadable and (with TLS) incomplete configuration and of log files that can and cannot be written, given as option or in the configuration: it serves or ends with a failure, and leaves the log of the one before", [](ListCheck &l, bool) {
        for (int conf = 0; conf < 5; ++conf)       // good, missing, a directory, TLS without key, TLS without certificate
            for (int log = 0; log < 4; ++log)      // none, new file, in a new directory, a directory
                for (int how = 0; how < 2; ++how) // option, configuration
                    for (int old = 0; old < 2; ++old)
                        l.add(QString("configuration %1, log %2 %3, %4").arg(conf).arg(log).arg(how ? "configured" : "as option").arg(old ? "there before" : "new"), [=](Ctx &x) {
                            Paths p = fresh();
                            QString file = log == 2 ? p.dir + "/new/sub/log" : log == 3 ? p.dir : p.dir + "/log";
                            QString more = how && log ? "writeLogs=true\nlogFile=" + file + "\n" : QString();
                            writeConfig(p, conf >= 3, more);
                            if (conf >= 3) {
                                QFile f(p.conf);
                                f.open(QIODevice::ReadOnly);
                                QByteArray t = f.readAll();
                                f.close();
                                t.replace(conf == 3 ? "key.pem" : "cert.pem", "nothing.pem");
                                f.open(QIODevice::WriteOnly | QIODevice::Truncate);
                                f.write(t);
                            }
                            if (old && log && log < 3) {
                                QDir().mkpath(QFileInfo(file).path());
                                QFile f(file);
                                f.open(QIODevice::WriteOnly);
                                f.write("what was there before\n");
                            }
                            std::vector<QByteArray> args = {"-c", conf == 1 ? (p.dir + "/no.conf").toUtf8() : conf == 2 ? p.dir.toUtf8() : p.conf.toUtf8()};
                            if (!how && log) {
                                args.push_back("-l");
                                args.push_back(file.toUtf8());
                            }
                            Result r = run(x, p, Hit(), Want(), 3, nullptr, args);
                            bool serves = conf == 0 && log != 3;
                            x.step();
                            if (serves) {
                                judge(x, r, "a good configuration");
                            } else {
                                x.outcome(QByteArray::number(r.code));
                                if (r.code != 1)
                                    return x.fail("program:refuses", QString("it should end with a failure, but: %1 %2").arg(r.code).arg(r.text));
                                if (QFile::exists(p.un) || QFile::exists(p.monitor))
                                    x.fail("program:sockets", "a socket file is left behind");
                            }
                            if (old && log && log < 3) {
                                QFile f(file);
                                f.open(QIODevice::ReadOnly);
                                if (!f.readAll().startsWith("what was there before\n"))
                                    x.fail("program:log", "the log before is lost");
                            }
                        });
    });
}

} // namespace

static CheckReg r28("C28", [] {
    MultiCheck *m = new MultiCheck;
    m->add("signals", c28Signals());
    m->add("crashes", c28Crashes());
    m->add("starts", c28Starts());
    m->add("arguments", c28Arguments());
    return m;
});

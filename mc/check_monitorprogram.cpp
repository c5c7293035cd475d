// C27 the monitor program: what it shows is what the proxy reported
#include "fix.h"
#include "stub/ncurses.h"
#include "utils.h"

#include "monitorclient.h"
#include "noninteractivemonitor.h"
#include "monitor.h"

int monitorProgramMain(int argc, char **argv);

#include <QCoreApplication>
#include <QDateTime>
#include <QFile>
#include <QRegExp>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

// The program ends itself with exit(); in a child of the harness that must not run the harness's own exit handlers.
bool g_program = false;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) __attribute__((noreturn));
extern "C" void __wrap_exit(int code)
{
    if (!g_program)
        __real_exit(code);
    qStdOut().flush();
    fflush(stdout);
    _exit(fakeScreenOn ? 76 : code); // the terminal has to be given back
}

namespace {

QString human(double bytes) // independent of the program's own
{
    static const char *u[] = {"B", "KB", "MB", "GB", "TB"};
    int i = 0;
    while (bytes >= 1024.0 && i < 4) {
        bytes /= 1024.0;
        ++i;
    }
    return QString::number(bytes, 'f', 2) + " " + u[i];
}

struct Line { // of a server or a client, in the order of the report
    bool client;
    QString uuid, name, address;
    qint64 when, rx, tx;
    QString time() const { return QDateTime::fromSecsSinceEpoch(when).toString("dd.MM.yyyy hh:mm:ss"); }
};

struct Report {
    QVariantMap map;
    std::vector<Line> lines;
    QByteArray wire() const { return QJsonDocument::fromVariant(map).toJson(QJsonDocument::Compact) + "\n"; }
};

// shape: the numbers of clients of each server
Report report(const std::vector<int> &shape, int variant)
{
    static const qint64 amounts[] = {0, 1, 1023, 1024, 5000000, 2147483647LL, 2147483648LL, 5000000000LL, 3000000000000LL};
    static const char *names[] = {"plain", "with {braces} and \"quotes\"", "a }", "1%2%3%4%5%6", "", "back\\slash}"};
    Report r;
    QVariantList servers;
    int n = 0, clients = 0;
    auto fill = [&](QVariantMap &m, bool client) {
        Line l;
        l.client = client;
        l.uuid = uuidOf(100 + n).toString(QUuid::WithoutBraces);
        l.name = QString::fromUtf8(names[(n + variant) % 6]) + (n % 3 ? QString(" %1").arg(n) : QString());
        if (variant >= 20) { // long ones and other scripts
            static const char *more[] = {"thirty characters are too few for it", "B\u00fcro \u2013 \u5317\u4eac", "\U0001F3E0 home", "x"};
            l.name = QString::fromUtf8(more[(n + variant) % 4]);
            if (l.name == "x")
                l.name = QString("a long name ").repeated(20 + n % 7) + "end";
        }
        l.address = QString("10.%1.%2.%3").arg(variant).arg(n / 250).arg(n % 250 + 1);
        l.when = 1700000000LL + 86400LL * 37 * n + variant;
        l.rx = amounts[(n * 2 + variant) % 9];
        l.tx = amounts[(n * 2 + variant + 4) % 9];
        m["id"] = uuidOf(500 + n).toString();
        m["address"] = l.address;
        m["timestamp"] = l.when;
        m["name"] = l.name;
        m[client ? "clientUuid" : "serverUuid"] = l.uuid;
        m["rxDataCount"] = l.rx;
        m["txDataCount"] = l.tx;
        r.lines.push_back(l);
        n++;
    };
    for (int c : shape) {
        QVariantMap s;
        fill(s, false);
        QVariantList list;
        for (int i = 0; i < c; ++i) {
            QVariantMap m;
            fill(m, true);
            list << m;
            clients++;
        }
        s["clientConnections"] = list;
        servers << s;
    }
    QVariantMap t;
    t["totalClientCount"] = n + 7;
    t["serverConnectionsCount"] = (int)shape.size() + 3;
    t["clientConnectionsCount"] = clients + 1;
    QVariantMap tr;
    tr["TCP"] = n;
    tr["WebSocket"] = 41;
    tr["UnixSocket"] = 0;
    t["transports"] = tr;
    t["troughput"] = 2048 + variant;
    t["tunnelConnections"] = servers;
    r.map["serverName"] = "the proxy }";
    r.map["serverVersion"] = "1.2.3";
    r.map["apiVersion"] = "0.9";
    r.map["tunnelProxyStatistic"] = t;
    return r;
}

// a monitor socket played by the harness
struct FakeMonitor {
    World &w;
    QString path;
    int lfd;
    std::unique_ptr<RawLink> link;
    FakeMonitor(World &world) : w(world), path(scratchDir() + "/mon27"), lfd(sim::rawUnixListen(path.toUtf8().constData()))
    {
        w.pumps.push_back([this] {
            bool moved = false;
            if (!link) {
                int fd = ::accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
                if (fd < 0)
                    return false;
                link.reset(new RawLink(fd));
                moved = true;
            }
            return link->pump() || moved;
        });
    }
    ~FakeMonitor()
    {
        w.pumps.clear();
        ::close(lfd);
        QFile::remove(path);
    }
    QList<QByteArray> requests() const { return link ? link->rx.split('\n') : QList<QByteArray>(); }
};

// the pieces the bytes arrive in: everything in the queue is one read
void deliver(World &w, RawLink *l, const QByteArray &bytes, const std::vector<int> &cuts)
{
    int at = 0;
    for (int c : cuts) {
        l->write(bytes.mid(at, c - at));
        w.settle();
        at = c;
    }
    l->write(bytes.mid(at));
    w.settle();
}

// ---- the messages --------------------------------------------------------------------------------
void messages(Ctx &ctx, const std::vector<QVariantMap> &ms, const std::vector<int> &cuts)
{
    World w(ctx);
    FakeMonitor fake(w);
    MonitorClient c(fake.path, false);
    QList<QVariantMap> got;
    QObject::connect(&c, &MonitorClient::dataReady, &c, [&](const QVariantMap &m) { got << m; });
    c.connectMonitor();
    w.settle();
    if (!fake.link)
        return ctx.fail("program:connect", "does not connect");
    QByteArray all;
    for (const QVariantMap &m : ms)
        all += QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact) + "\n";
    deliver(w, fake.link.get(), all, cuts);
    ctx.step();
    QByteArray o;
    for (const QVariantMap &m : got)
        o += QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact);
    ctx.observe(o);
    ctx.state(QByteArray::number(got.size()) + o.left(200));
    if (got.size() != (int)ms.size())
        return ctx.fail("program:reports", QString("%1 reports of %2 arrived").arg(got.size()).arg(ms.size()));
    for (size_t i = 0; i < ms.size(); ++i)
        if (QJsonDocument::fromVariant(got[i]) != QJsonDocument::fromVariant(ms[i]))
            ctx.fail("program:reports", QString("report %1 is altered").arg(i));
}

std::vector<QVariantMap> sequence(int k)
{
    QVariantMap small, tricky;
    small["a"] = 1;
    tricky["a"] = "}\n{";
    QVariantMap inner;
    inner["b"] = "}";
    tricky["x"] = inner;
    switch (k) {
    case 0: return {small};
    case 1: return {small, tricky};
    case 2: return {tricky, small, tricky};
    case 3: return {report({1}, 0).map, small};
    default: return {small, small, small, small};
    }
}

int lengthOf(const std::vector<QVariantMap> &ms)
{
    int n = 0;
    for (const QVariantMap &m : ms)
        n += QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact).size() + 1;
    return n;
}

ListCheck *c27Messages()
{
    return new ListCheck("the reports read by the monitor client: five sequences of reports as one packet, cut at every position, every two positions (the short ones), and in pieces of every size up to 40", [](ListCheck &l, bool thorough) {
        for (int k = 0; k < 5; ++k) {
            int n = lengthOf(sequence(k));
            l.add(QString("sequence %1 in one piece").arg(k), [=](Ctx &x) { messages(x, sequence(k), {}); });
            for (int c = 1; c < n; ++c) {
                l.add(QString("sequence %1 cut at %2").arg(k).arg(c), [=](Ctx &x) { messages(x, sequence(k), {c}); });
                if (n < 200 || thorough)
                    for (int d = c + 1; d < n; ++d)
                        l.add(QString("sequence %1 cut at %2 and %3").arg(k).arg(c).arg(d), [=](Ctx &x) { messages(x, sequence(k), {c, d}); });
            }
            for (int p = 1; p <= 40; ++p)
                l.add(QString("sequence %1 in pieces of %2").arg(k).arg(p), [=](Ctx &x) {
                    std::vector<int> cuts;
                    for (int c = p; c < n; c += p)
                        cuts.push_back(c);
                    messages(x, sequence(k), cuts);
                });
        }
    });
}

// ---- the program that prints once -------------------------------------------------------------------
struct Printed {
    int code = -1;
    QByteArray text;
    QByteArray request;
};

// runs in a child; the report is delivered in these pieces
Printed runProgram(Ctx &ctx, const QByteArray &report, const std::vector<int> &cuts, bool json, bool all)
{
    Printed p;
    QString out = scratchDir() + "/out27", req = scratchDir() + "/req27";
    fflush(stdout);
    pid_t pid = forkChild();
    if (pid == 0) {
        g_program = true;
        int fd = ::open(out.toUtf8().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        ::dup2(fd, 1);
        World w(ctx);
        FakeMonitor fake(w);
        NonInteractiveMonitor m(fake.path, json, all);
        w.settle();
        if (fake.link) {
            QFile f(req);
            f.open(QIODevice::WriteOnly | QIODevice::Truncate);
            f.write(fake.link->rx);
            f.close();
            deliver(w, fake.link.get(), report, cuts);
        }
        _exit(77); // still running
    }
    int st = 0;
    st = waitChild(pid, 50);
    p.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    QFile f(out), g(req);
    if (f.open(QIODevice::ReadOnly))
        p.text = f.readAll();
    if (g.open(QIODevice::ReadOnly))
        p.request = g.readAll();
    QFile::remove(out);
    QFile::remove(req);
    return p;
}

// the line shows all of it, and the amounts the right way round
void shows(Ctx &ctx, const Line &l, const QString &text, const char *what)
{
    ctx.step();
    int rx = text.indexOf(QString("RX: %1").arg(human(l.rx))), tx = text.indexOf(QString("TX: %1").arg(human(l.tx)));
    if (rx < 0 || tx < 0 || !text.contains(l.address) || !text.contains(l.name.trimmed()) || !text.contains(l.time()))
        ctx.fail(QString("program:%1").arg(what), QString("the line '%1' should show %2, %3, '%4', RX %5, TX %6").arg(text, l.time(), l.address, l.name, human(l.rx), human(l.tx)));
}

void checkText(Ctx &ctx, const Report &r, const QByteArray &text)
{
    QStringList lines = QString::fromUtf8(text).split('\n');
    size_t at = 0;
    for (const QString &line : lines) {
        for (size_t i = 0; i < r.lines.size(); ++i)
            if (line.contains(r.lines[i].uuid)) {
                if (i != at)
                    return ctx.fail("program:order", "the connections are not listed as reported");
                shows(ctx, r.lines[i], line, "line");
                at++;
            }
    }
    if (at != r.lines.size())
        return ctx.fail("program:order", QString("%1 of %2 connections are listed").arg(at).arg(r.lines.size()));
    QVariantMap t = r.map["tunnelProxyStatistic"].toMap();
    auto has = [&](const QString &label, const QString &value) {
        ctx.step();
        for (const QString &line : lines) {
            int p = line.indexOf(label);
            if (p >= 0 && line.mid(p + label.size()).remove(':').trimmed() == value)
                return;
        }
        ctx.fail("program:head", QString("'%1' is not shown as %2").arg(label, value));
    };
    has("Server name", r.map["serverName"].toString());
    has("Server version", r.map["serverVersion"].toString());
    has("API version", r.map["apiVersion"].toString());
    has("Total client count", t["totalClientCount"].toString());
    has("Server connections", t["serverConnectionsCount"].toString());
    has("Client connections", t["clientConnectionsCount"].toString());
    has("Data troughput", human(t["troughput"].toDouble()) + " / s");
    QVariantMap tr = t["transports"].toMap();
    for (auto it = tr.begin(); it != tr.end(); ++it)
        has("Connections on " + it.key(), it.value().toString());
}

const std::vector<std::vector<int>> kShapes = {{}, {0}, {1}, {3}, {2, 0, 1}, {0, 0}, {4, 4}};

void program(Ctx &ctx, const std::vector<int> &shape, int variant, bool json, bool all, const std::vector<int> &cuts)
{
    Report r = report(shape, variant);
    Printed p = runProgram(ctx, r.wire(), cuts, json, all);
    ctx.observe(p.text);
    ctx.state(p.text);
    ctx.outcome(QByteArray::number(p.code));
    QVariantMap q = QJsonDocument::fromJson(p.request).toVariant().toMap();
    if (q.value("method").toString() != "refresh" || q.value("params").toMap().value("printAll").toBool() != all)
        return ctx.fail("program:request", "the request sent was " + QString(p.request));
    if (p.code != 0)
        return ctx.fail("program:exit", p.code == 77 ? QString("it is still waiting for the report") : QString("it ends with code %1").arg(p.code));
    if (json) {
        QJsonDocument d = QJsonDocument::fromJson(p.text);
        ctx.step();
        if (d != QJsonDocument::fromVariant(r.map))
            ctx.fail("program:json", "it prints something else: " + QString(p.text.left(200)));
        return;
    }
    checkText(ctx, r, p.text);
}

ListCheck *c27Program()
{
    return new ListCheck("the non-interactive monitor: seven shapes of reports, thirteen sets of values, text and JSON, with and without -a; reports of up to 700 clients in pieces of six sizes; one report cut at every position (quick: every fifth)", [](ListCheck &l, bool thorough) {
        for (size_t s = 0; s < kShapes.size(); ++s)
            for (int v = 0; v < 9; ++v)
                for (int json = 0; json < 2; ++json)
                    for (int all = 0; all < 2; ++all)
                        l.add(QString("shape %1, values %2, %3%4").arg(s).arg(v).arg(json ? "JSON" : "text", all ? ", all" : ""), [=](Ctx &x) { program(x, kShapes[s], v, json, all, {}); });
        for (size_t s = 0; s < kShapes.size(); ++s)
            for (int v = 20; v < 24; ++v)
                for (int json = 0; json < 2; ++json)
                    l.add(QString("shape %1, long names %2, %3").arg(s).arg(v).arg(json ? "JSON" : "text"), [=](Ctx &x) { program(x, kShapes[s], v, json, true, {}); });
        // reports larger than any buffer on the way
        for (const std::vector<int> &shape : {std::vector<int>{60}, {190}, {400}, {150, 0, 150}, {700}})
            for (int piece : {0, 1000, 16384, 65535, 65536, 65537})
                for (int json = 0; json < 2; ++json)
                    l.add(QString("a report of %1 servers with %2 clients in pieces of %3, %4").arg(shape.size()).arg(shape[0]).arg(piece).arg(json ? "JSON" : "text"), [=](Ctx &x) {
                        std::vector<int> cuts;
                        int n = report(shape, 2).wire().size();
                        for (int c = piece; piece && c < n; c += piece)
                            cuts.push_back(c);
                        program(x, shape, 2, json, true, cuts);
                    });
        int n = report({1}, 3).wire().size();
        for (int c = 1; c < n; c += thorough || c > n - 6 ? 1 : 5)
            for (int json = 0; json < 2; ++json)
                l.add(QString("cut at %1, %2").arg(c).arg(json ? "JSON" : "text"), [=](Ctx &x) { program(x, {1}, 3, json, true, {c}); });
    });
}

// ---- the program with the screen --------------------------------------------------------------------
QStringList screen()
{
    QStringList rows;
    for (size_t i = 1; i < fakeWindows.size(); ++i) // the first is the whole screen
        for (const std::string &r : fakeWindows[i]->rows)
            rows << QString::fromLatin1(r.data(), (int)r.size());
    return rows;
}

void onScreen(Ctx &ctx, const Report &r, const QString &when)
{
    QStringList rows = screen();
    size_t at = 0;
    for (const QString &row : rows) {
        if (at < r.lines.size() && row.contains(r.lines[at].address + " ")) {
            shows(ctx, r.lines[at], row, "screen");
            at++;
            continue;
        }
        for (const Line &l : r.lines)
            if (row.contains(l.address + " "))
                return ctx.fail("program:screen", when + ": the connections are not listed as reported");
        if (row.contains("RX:"))
            return ctx.fail("program:screen", when + ": a connection that is not reported is shown: " + row.trimmed());
    }
    if (at != r.lines.size())
        return ctx.fail("program:screen", QString("%1: %2 of %3 connections are shown").arg(when).arg(at).arg(r.lines.size()));
    QVariantMap t = r.map["tunnelProxyStatistic"].toMap();
    QString all = rows.join('\n');
    for (const QString &s : {r.map["serverName"].toString() + " (" + r.map["serverVersion"].toString() + ")", "API: " + r.map["apiVersion"].toString(), "Total: " + t["totalClientCount"].toString() + " ",
                             "Servers: " + t["serverConnectionsCount"].toString() + " ", "Clients: " + t["clientConnectionsCount"].toString() + " ", human(t["troughput"].toDouble()) + " / s"})
        if (!all.contains(s))
            ctx.fail("program:screen", when + ": '" + s + "' is not shown");
    ctx.state(all.toUtf8());
    ctx.observe(all.toUtf8());
}

// reports one after another; each is asked for once a second and shown soon after it came
void interactive(Ctx &ctx, const std::vector<std::pair<std::vector<int>, int>> &reports)
{
    World w(ctx);
    FakeMonitor fake(w);
    {
        Monitor m(fake.path, false);
        w.settle();
        for (int k = 0; k < 11; ++k) {
            w.advance(100);
            w.settle();
        }
        size_t asked = 0;
        for (size_t i = 0; i < reports.size(); ++i) {
            QString when = QString("report %1").arg(i);
            size_t n = 0;
            for (const QByteArray &q : fake.requests())
                n += QJsonDocument::fromJson(q).toVariant().toMap().value("method").toString() == "refresh";
            ctx.step();
            if (n <= asked)
                return ctx.fail("program:asks", when + " is not asked for");
            asked = n;
            Report r = report(reports[i].first, reports[i].second);
            QByteArray b = r.wire();
            deliver(w, fake.link.get(), b, {b.size() / 2, b.size() - 1});
            for (int k = 0; k < 3; ++k) {
                w.advance(100);
                w.settle();
            }
            onScreen(ctx, r, when);
            if (ctx.failed)
                break;
            for (int k = 0; k < 9; ++k) {
                w.advance(100);
                w.settle();
            }
        }
    }
    if (!fakeWindows.empty() && !ctx.failed) {
        // windows of the screen are closed with the program
        ctx.fail("program:screen", "windows are left");
    }
    for (WINDOW *x : std::vector<WINDOW *>(fakeWindows))
        delwin(x);
}

// names of other scripts in the window
void screenName(Ctx &ctx, const char *name)
{
    World w(ctx);
    FakeMonitor fake(w);
    {
        Monitor m(fake.path, false);
        w.settle();
        for (int k = 0; k < 11; ++k) {
            w.advance(100);
            w.settle();
        }
        Report r = report({0}, 0);
        QVariantMap t = r.map["tunnelProxyStatistic"].toMap();
        QVariantList l = t["tunnelConnections"].toList();
        QVariantMap s = l[0].toMap();
        s["name"] = QString::fromUtf8(name);
        l[0] = s;
        t["tunnelConnections"] = l;
        r.map["tunnelProxyStatistic"] = t;
        deliver(w, fake.link.get(), r.wire(), {});
        for (int k = 0; k < 3; ++k) {
            w.advance(100);
            w.settle();
        }
        ctx.step();
        QByteArray all;
        for (size_t i = 1; i < fakeWindows.size(); ++i)
            for (const std::string &row : fakeWindows[i]->rows)
                all += QByteArray::fromStdString(row) + "\n";
        ctx.observe(all);
        if (!all.contains(name))
            ctx.fail("program:screen-script", QString("the window does not show the name '%1'").arg(QString::fromUtf8(name)));
    }
    for (WINDOW *x : std::vector<WINDOW *>(fakeWindows))
        delwin(x);
}

ListCheck *c27Screen()
{
    return new ListCheck("the monitor with a screen: every two reports of seven shapes and nine sets of values after one another; a name of another script", [](ListCheck &l, bool) {
        l.add("an ASCII name", [](Ctx &x) { screenName(x, "just a name"); });
        l.add("a name of another script", [](Ctx &x) { screenName(x, "B\xc3\xbcro \xe5\x8c\x97\xe4\xba\xac"); });
        for (size_t a = 0; a < kShapes.size(); ++a)
            for (size_t b = 0; b < kShapes.size(); ++b)
                for (int v = 0; v < 9; ++v)
                    l.add(QString("shapes %1 and %2, values %3").arg(a).arg(b).arg(v), [=](Ctx &x) { interactive(x, {{kShapes[a], v}, {kShapes[b], v + 1}, {kShapes[a], v}}); });
    });
}

// ---- the whole program: options, keys, sizes of the terminal, ends ------------------------------------
struct Show {
    Ctx &ctx;
    World w;
    FakeMonitor fake;
    std::vector<std::function<void()>> steps;
    size_t at = 0;
    QString words;
    explicit Show(Ctx &c) : ctx(c), w(c), fake(w) {}
    void need(bool ok, const QString &what)
    {
        if (!ok && !ctx.failed)
            ctx.fail("program:whole", QString("step %1: %2").arg(at).arg(what));
    }
    void pass(int ms)
    {
        for (int t = 0; t < ms && at < 1000; t += 100) {
            w.advance(100);
            w.settle();
        }
    }
    int asked()
    {
        int n = 0;
        for (const QByteArray &q : fake.requests())
            n += QJsonDocument::fromJson(q).toVariant().toMap().value("method").toString() == "refresh";
        return n;
    }
    void idle()
    {
        w.settle();
        if (!ctx.failed && at < steps.size())
            return steps[at++]();
        finish(75);
    }
    void finish(int code)
    {
        fflush(stdout);
        QFile f(words);
        f.open(QIODevice::WriteOnly | QIODevice::Truncate);
        f.write(ctx.key.toUtf8() + "\n" + ctx.message.toUtf8());
        f.close();
        _exit(ctx.failed ? 74 : code);
    }
};

// 75: it goes on after the last step
int runMain(Ctx &ctx, std::vector<QByteArray> args, bool socket, int rows, int columns, const std::function<void(Show &)> &story, QByteArray *text = nullptr)
{
    QString out = scratchDir() + "/out27", words = scratchDir() + "/words27";
    pid_t pid = forkChild();
    if (pid == 0) {
        g_program = true;
        ::dup2(::open(out.toUtf8().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 1);
        qApp->~QCoreApplication();
        g_disp = new SimDispatcher;
        QCoreApplication::setEventDispatcher(g_disp);
        fakeLines = rows;
        fakeColumns = columns;
        static Show *s = new Show(ctx);
        s->words = words;
        story(*s);
        g_idle = [] { s->idle(); };
        args.insert(args.begin(), "nymea-remoteproxy-monitor");
        if (socket) {
            args.push_back("-s");
            args.push_back(s->fake.path.toUtf8());
        }
        std::vector<char *> argv;
        for (QByteArray &a : args)
            argv.push_back(a.data());
        argv.push_back(nullptr);
        __wrap_exit(monitorProgramMain((int)args.size(), argv.data()));
    }
    int st = waitChild(pid, 50);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    QFile f(words), g(out);
    if (code == 74 && f.open(QIODevice::ReadOnly)) {
        QList<QByteArray> l = f.readAll().split('\n');
        ctx.fail(QString::fromUtf8(l.value(0)), QString::fromUtf8(l.value(1)));
    }
    if (text && g.open(QIODevice::ReadOnly))
        *text = g.readAll();
    QFile::remove(words);
    QFile::remove(out);
    QFile::remove(scratchDir() + "/mon27");
    ctx.step();
    ctx.outcome(QByteArray::number(code));
    ctx.observe(QByteArray::number(code));
    if (code == 76)
        ctx.fail("program:terminal", "it ends without giving the terminal back");
    else if (code >= 1000 || code == 99)
        ctx.fail("program:crash", QString("it ends with %1").arg(code));
    return code;
}

enum Key { KNone, KLeft, KRight, KUp, KDown, KOther, KResize, KCount };
void press(int k)
{
    static const int code[] = {-1, KEY_LEFT, KEY_RIGHT, KEY_UP, KEY_DOWN, 'q'};
    if (k == KResize)
        stdscr->resize(stdscr->h == 60 ? 25 : 60, stdscr->w == 220 ? 150 : 220);
    else
        fakeKey = code[k];
}

// what is done in the window, and how it ends
void window(Ctx &ctx, std::vector<int> keys, int reports, int cut, int end, int rows, int columns)
{
    int code = runMain(ctx, {}, true, rows, columns, [=](Show &s) {
        s.steps.push_back([=, &s] {
            s.pass(1200);
            int asked = s.asked();
            s.need(asked > 0, "it does not ask for a report");
            for (int i = 0; i < reports; ++i) {
                Report r = report(i % 2 ? std::vector<int>{1} : std::vector<int>{2, 0, 1}, i);
                QByteArray b = r.wire();
                deliver(s.w, s.fake.link.get(), b, {});
                s.pass(300);
                if (!ctx.failed)
                    onScreen(s.ctx, r, "shown");
                for (int k : keys) {
                    press(k);
                    s.pass(300);
                    if (!s.ctx.failed)
                        onScreen(s.ctx, r, "after a key or another size");
                }
                s.pass(1100);
                s.need(s.asked() > asked, "it does not ask again");
                asked = s.asked();
            }
            if (cut) {
                QByteArray b = report({1}, 3).wire();
                s.fake.link->write(b.left(b.size() * cut / 4));
                s.w.settle();
            }
            if (end == 0)
                s.fake.link->close();
            else if (end == 1)
                fakeKey = 27;
            s.pass(1000);
        });
    });
    if (!ctx.failed && code != (end == 2 ? 75 : 0))
        ctx.fail("program:end", end == 2 ? QString("it ends with %1").arg(code) : code == 75 ? QString("it goes on") : QString("it ends with %1").arg(code));
}

ListCheck *c27Whole()
{
    return new ListCheck("the whole program: all combinations of its options, with and without a socket; the window with every two of seven keys and changes of size after each of up to two reports, ended by the proxy, the escape key or not at all, also within a report; sizes of the terminal", [](ListCheck &l, bool thorough) {
        for (int n = 0; n < 2; ++n)
            for (int j = 0; j < 2; ++j)
                for (int a = 0; a < 2; ++a)
                    for (int longer = 0; longer < 2; ++longer)
                        for (int socket = 0; socket < 3; ++socket)
                            l.add(QString("options%1%2%3%4, socket %5").arg(n ? " n" : "", j ? " j" : "", a ? " a" : "", longer ? " in full" : "").arg(socket), [=](Ctx &ctx) {
                                std::vector<QByteArray> args;
                                if (n)
                                    args.push_back(longer ? "--non-interactive" : "-n");
                                if (j)
                                    args.push_back(longer ? "--json" : "-j");
                                if (a)
                                    args.push_back(longer ? "--all" : "-a");
                                if (socket == 1) {
                                    args.push_back(longer ? "--socket" : "-s");
                                    args.push_back((scratchDir() + "/nothing").toUtf8());
                                }
                                if (socket == 2)
                                    args.push_back("--unknown");
                                Report r = report({2, 0}, 1);
                                QByteArray text;
                                bool good = socket == 0 && (n || j || !a);
                                int code = runMain(ctx, args, socket != 1, 60, 220, [=](Show &s) {
                                    s.steps.push_back([=, &s] {
                                        s.pass(1200);
                                        s.need(good || !s.fake.link, "it connects");
                                        if (!good || !s.fake.link)
                                            return;
                                        QVariantMap q = QJsonDocument::fromJson(s.fake.requests().value(0)).toVariant().toMap();
                                        s.need(q.value("params").toMap().value("printAll").toBool() == bool(a), "the request is " + QJsonDocument::fromVariant(q).toJson(QJsonDocument::Compact));
                                        deliver(s.w, s.fake.link.get(), r.wire(), {});
                                        s.pass(500);
                                        if (!n && !j) {
                                            onScreen(s.ctx, r, "shown");
                                            s.finish(73);
                                        }
                                    });
                                }, &text);
                                if (ctx.failed)
                                    return;
                                if (good ? code != (n || j ? 0 : 73) : (code == 0 || code == 75 || code == 73))
                                    return ctx.fail("program:options", QString("it ends with %1").arg(code));
                                if (good && j && QJsonDocument::fromJson(text) != QJsonDocument::fromVariant(r.map))
                                    ctx.fail("program:json", "it prints something else: " + QString(text.left(200)));
                                if (good && n && !j)
                                    checkText(ctx, r, text);
                            });
        for (int end = 0; end < 3; ++end)
            for (int cut = 0; cut < 4; ++cut)
                for (int reports = 0; reports < 3; ++reports)
                    l.add(QString("window, %1 reports, then %2/4 of one, then %3").arg(reports).arg(cut).arg(end), [=](Ctx &x) { window(x, {}, reports, cut, end, 60, 220); });
        for (int a = 1; a < KCount; ++a)
            for (int b = 0; b < KCount; ++b)
                for (int end = 0; end < 3; ++end)
                    for (int c = 0; c < (thorough ? int(KCount) : 1); ++c)
                        l.add(QString("window, keys %1 %2 %3, then %4").arg(a).arg(b).arg(c).arg(end), [=](Ctx &x) { window(x, {a, b, c}, 2, 0, end, 60, 220); });
        for (int rows : {20, 24, 50, 60, 200})
            for (int columns : {130, 132, 200, 300})
                for (int k : {int(KNone), int(KResize)})
                    l.add(QString("window of %1 x %2%3").arg(rows).arg(columns).arg(k ? ", then another size" : ""), [=](Ctx &x) { window(x, {k}, 2, 0, 1, rows, columns); });
    });
}

// ---- with the real proxy ------------------------------------------------------------------------
void againstProxy(Ctx &ctx, int servers, int clients, bool all, bool json)
{
    QString out = scratchDir() + "/out27";
    fflush(stdout);
    pid_t pid = forkChild();
    if (pid == 0) {
        g_program = true;
        Fix f(ctx);
        Conn *last = nullptr;
        for (int s = 0; s < servers; ++s)
            last = f.server(Tcp, 1 + s);
        for (int c = 0; c < clients; ++c) {
            int addr = 0;
            Conn *k = f.client(Tcp, 50 + c, servers, last, &addr);
            k->sendRaw(QByteArray(100 + c, 'x'));
            f.settle();
            last->take();
            last->sendFrame(quint16(addr), QByteArray(2000 + c, 'y'));
            f.settle();
        }
        if (ctx.failed)
            _exit(78);
        int fd = ::open(out.toUtf8().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        ::dup2(fd, 1);
        NonInteractiveMonitor m(f.w.monitorPath(), json, all);
        f.settle();
        _exit(77);
    }
    int st = 0;
    st = waitChild(pid, 50);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    QFile f(out);
    QByteArray text;
    if (f.open(QIODevice::ReadOnly))
        text = f.readAll();
    QFile::remove(out);
    ctx.step();
    ctx.observe(text);
    ctx.state(QByteArray::number(text.size()));
    ctx.outcome(QByteArray::number(code));
    if (code != 0)
        return ctx.fail("program:exit", code == 77 ? QString("it is still waiting for the report") : QString("it ends with code %1").arg(code));
    // how often each is listed
    for (int s = 0; s < servers; ++s) {
        bool want = all || (s == servers - 1 && clients);
        if (text.contains(uuidOf(1 + s).toString(QUuid::WithoutBraces).toUtf8()) != want)
            ctx.fail("program:listed", QString("server %1 is %2listed").arg(s).arg(want ? "not " : ""));
    }
    if (json) {
        QVariantMap m = QJsonDocument::fromJson(text).toVariant().toMap().value("tunnelProxyStatistic").toMap();
        if (m.value("clientConnectionsCount").toInt() != clients || m.value("serverConnectionsCount").toInt() != servers)
            ctx.fail("program:json", "the counts are wrong");
        return;
    }
    for (int c = 0; c < clients; ++c) {
        ctx.step();
        bool found = false;
        for (const QByteArray &line : text.split('\n'))
            if (line.contains(uuidOf(50 + c).toString(QUuid::WithoutBraces).toUtf8())) {
                found = true;
                // the registration counts too, so only what is at least there
                QRegExp re("RX: *([0-9.]+) (K?B).*TX: *([0-9.]+) (K?B)");
                QString q = QString::fromUtf8(line);
                if (re.indexIn(q) < 0)
                    ctx.fail("program:line", "no amounts in " + q);
                else if (re.cap(3).toDouble() * (re.cap(4) == "KB" ? 1024 : 1) < 1990 + c || re.cap(3).toDouble() * (re.cap(4) == "KB" ? 1024 : 1) > 2900 + c || re.cap(1).toDouble() * (re.cap(2) == "KB" ? 1024 : 1) > 900 + c)
                    ctx.fail("program:line", "the amounts are not those of the client: " + q);
            }
        if (!found)
            ctx.fail("program:listed", QString("client %1 is not listed").arg(c));
    }
}

ListCheck *c27Real()
{
    return new ListCheck("the non-interactive monitor at the real proxy with 0 to 3 servers and 0 to 40 clients", [](ListCheck &l, bool thorough) {
        for (int s = 0; s <= 3; ++s)
            for (int c : {0, 1, 2, 40})
                for (int all = 0; all < 2; ++all)
                    for (int json = 0; json < 2; ++json)
                        if (s || !c)
                            l.add(QString("%1 servers, %2 clients%3%4").arg(s).arg(c).arg(all ? ", all" : "", json ? ", JSON" : ""), [=](Ctx &x) { againstProxy(x, s, c, all, json); });
        Q_UNUSED(thorough)
    });
}

} // namespace

static CheckReg r27("C27", [] {
    MultiCheck *m = new MultiCheck;
    m->add("messages", c27Messages());
    m->add("program", c27Program());
    m->add("screen", c27Screen());
    m->add("whole program", c27Whole());
    m->add("real proxy", c27Real());
    return m;
});

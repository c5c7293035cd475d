#include "runner.h"
#include <sys/prctl.h>
#include "dispatcher.h"
#include "simnet.h"

#include <QCoreApplication>
#include <QDir>
#include <QFile>
#include <QHash>
#include <QJsonArray>
#include <QJsonDocument>
#include <QJsonObject>
#include <QLoggingCategory>
#include <QStringList>
#include <QUuid>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=99:quarantine_size_mb=24:malloc_context_size=4:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1";
}

// Identities are part of the schedule: the n-th id of an execution is always the same.
static quint32 g_uuidCounter = 0;
QUuid QUuid::createUuid()
{
    quint32 n = ++g_uuidCounter;
    return QUuid(0xc0ffee00u + (n >> 16), quint16(n & 0xffff), 0x4000, 0x80, 0, 0, 0, 0, 0, 0, quint8(n & 0xff));
}

bool g_thorough = false;
static QString g_scratchRoot;
static pid_t g_mainPid;

QString scratchDir()
{
    static pid_t pid = 0;
    static QString dir;
    if (pid != getpid()) {
        pid = getpid();
        dir = g_scratchRoot + "/" + QString::number(pid);
        QDir().mkpath(dir);
    }
    return dir;
}

std::map<std::string, CheckFactory> &checkRegistry()
{
    static std::map<std::string, CheckFactory> m;
    return m;
}

QStringList Check::assumptions() const { return QStringList(); }

std::pair<size_t, size_t> MultiCheck::locate(size_t i) const
{
    for (size_t p = 0; p < parts.size(); ++p) {
        if (i < parts[p]->count())
            return {p, i};
        i -= parts[p]->count();
    }
    abort();
}
size_t MultiCheck::count() const
{
    size_t n = 0;
    for (auto &p : parts)
        n += p->count();
    return n;
}
QString MultiCheck::describe(size_t i) const
{
    auto l = locate(i);
    return names[l.first] + ": " + parts[l.first]->describe(l.second);
}
void MultiCheck::run(size_t i, Ctx &ctx)
{
    auto l = locate(i);
    parts[l.first]->run(l.second, ctx);
}
QString MultiCheck::bounds() const
{
    QStringList s;
    for (size_t p = 0; p < parts.size(); ++p)
        s << names[p] + " [" + QString::number(parts[p]->count()) + " executions]: " + parts[p]->bounds();
    return s.join("; ");
}
quint64 MultiCheck::modelStates() const
{
    quint64 n = 0;
    for (auto &p : parts)
        n += p->modelStates();
    return n;
}
quint64 MultiCheck::modelTransitions() const
{
    quint64 n = 0;
    for (auto &p : parts)
        n += p->modelTransitions();
    return n;
}

// ---------------------------------------------------------------------------------------------
namespace {

const int kMaxFail = 24;
const int kMaxKnown = 64;
const size_t kTable = 1 << 22;
struct Failure {
    std::atomic<int> ready;
    quint64 index;
    char key[256];
    char message[1600];
};
struct Shared {
    std::atomic<quint64> next;
    std::atomic<quint64> done;
    std::atomic<quint64> steps;
    std::atomic<quint64> prefixes;
    std::atomic<quint64> states;
    std::atomic<quint64> outcomes;
    std::atomic<int> stop;
    std::atomic<int> failCount;
    std::atomic<qint64> current[64];
    std::atomic<quint64> started[64]; // real ms
    Failure fails[kMaxFail];
    std::atomic<int> knownSeen[kMaxKnown];
    std::atomic<quint64> table[kTable];
    std::atomic<quint64> otable[1 << 16];
};
Shared *g_sh = nullptr;
struct Known {
    QString key, what;
};
std::vector<Known> g_known; // listed findings of this property
int knownIndex(const QString &key)
{
    for (size_t k = 0; k < g_known.size() && k < (size_t)kMaxKnown; ++k)
        if (g_known[k].key == key)
            return (int)k;
    return -1;
}

quint64 fnv(const QByteArray &d, quint64 h = 1469598103934665603ULL)
{
    for (int i = 0; i < d.size(); ++i) {
        h ^= (unsigned char)d[i];
        h *= 1099511628211ULL;
    }
    return h ? h : 1;
}

bool insert(std::atomic<quint64> *t, size_t n, quint64 h)
{
    for (size_t k = 0; k < n; ++k) {
        std::atomic<quint64> &slot = t[(h + k) & (n - 1)];
        quint64 cur = slot.load(std::memory_order_relaxed);
        if (cur == h)
            return false;
        if (cur == 0) {
            if (slot.compare_exchange_strong(cur, h))
                return true;
            if (cur == h)
                return false;
        }
        if (k > 64)
            return false; // full: an undercount, never an overcount
    }
    return false;
}

quint64 msNow() { return (quint64)(sim::wall() * 1000); }

} // namespace

void Ctx::fail(const QString &k, const QString &m)
{
    if (failed)
        return;
    failed = true;
    key = k;
    message = m;
}
void Ctx::observe(const QByteArray &data)
{
    obsHash = fnv(data, obsHash);
    obsHash = fnv("|", obsHash);
    if (verbose)
        printf("    obs: %s\n", data.left(300).constData());
}
void Ctx::state(const QByteArray &c)
{
    stateful = true;
    if (g_sh && insert(g_sh->table, kTable, fnv(c)))
        g_sh->states++;
}
void Ctx::outcome(const QByteArray &c)
{
    if (g_sh && insert(g_sh->otable, 1 << 16, fnv(c)))
        g_sh->outcomes++;
}

static void runOne(Check &c, size_t i, Ctx &ctx)
{
    g_uuidCounter = 0;
    sim::resetNet();
    if (g_disp->timerCount() == 0)
        sim::setNowNs(1000000000LL);
    g_disp->setOrder(SimDispatcher::Ascending);
    c.run(i, ctx);
}

static void workerBody(Check &c, int w, const QString &errFile)
{
    int fd = ::open(errFile.toLocal8Bit().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        ::close(fd);
    }
    for (;;) {
        if (g_sh->stop.load())
            break;
        quint64 i = g_sh->next++;
        if (i >= c.count())
            break;
        g_sh->started[w] = msNow();
        g_sh->current[w] = (qint64)i;
        Ctx ctx;
        runOne(c, i, ctx);
        g_sh->steps += ctx.steps;
        if (!ctx.stateful)
            g_sh->prefixes += ctx.steps + 1;
        g_sh->current[w] = -1;
        g_sh->done++;
        if (ctx.failed && knownIndex(ctx.key) >= 0) {
            g_sh->knownSeen[knownIndex(ctx.key)] = 1;
        } else if (ctx.failed) {
            int slot = g_sh->failCount++;
            if (slot < kMaxFail) {
                Failure &f = g_sh->fails[slot];
                f.index = i;
                strncpy(f.key, ctx.key.toUtf8().constData(), sizeof(f.key) - 1);
                strncpy(f.message, ctx.message.toUtf8().constData(), sizeof(f.message) - 1);
                f.ready = 1;
            } else {
                g_sh->stop = 1;
            }
        }
    }
}

struct SoloResult {
    bool failed = false, crashed = false, hung = false;
    QString key, message;
    quint64 hash = 0;
};

// a process that has taken all the memory it will be given
bool tooBig(int pid)
{
    char path[40], buf[64] = {0};
    snprintf(path, sizeof(path), "/proc/%d/statm", pid);
    int fd = ::open(path, O_RDONLY);
    if (fd < 0)
        return false;
    ssize_t got = ::read(fd, buf, sizeof(buf) - 1);
    ::close(fd);
    long size = 0, resident = 0;
    return got > 0 && sscanf(buf, "%ld %ld", &size, &resident) == 2 && resident > 2500L * 256;
}

pid_t forkChild()
{
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0)
        prctl(PR_SET_PDEATHSIG, SIGKILL);
    return p;
}

int waitChild(int pid, double seconds)
{
    int st = 0;
    double end = sim::wall() + seconds;
    for (int rounds = 1;; ++rounds) {
        if (waitpid(pid, &st, WNOHANG) == pid)
            return st;
        if (sim::wall() > end || (rounds % 256 == 0 && tooBig(pid))) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return st;
        }
        usleep(300);
    }
}

// one execution alone in a fresh process
static SoloResult solo(Check &c, size_t i, double limit, bool verbose = false)
{
    SoloResult r;
    QString err = g_scratchRoot + "/solo.err";
    int fds[2];
    if (pipe(fds))
        abort();
    pid_t pid = forkChild();
    if (pid == 0) {
        ::close(fds[0]);
        if (!verbose) {
            int fd = ::open(err.toLocal8Bit().constData(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
        }
        Ctx ctx;
        ctx.verbose = verbose;
        runOne(c, i, ctx);
        fflush(stdout);
        QByteArray out = QByteArray::number((qulonglong)ctx.obsHash) + "\n" + (ctx.failed ? "1" : "0") + "\n" + ctx.key.toUtf8().replace('\n', ' ').left(250) + "\n" + ctx.message.toUtf8();
        QByteArray o = out.left(3500);
        if (::write(fds[1], o.constData(), o.size()) < 0) {
        }
        _exit(0);
    }
    ::close(fds[1]);
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    double end = sim::wall() + limit;
    int status = 0, rounds = 0;
    for (;;) {
        if (waitpid(pid, &status, WNOHANG) == pid)
            break;
        if (sim::wall() > end) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            r.hung = true;
            break;
        }
        if (++rounds % 64 == 0 && tooBig(pid))
            kill(pid, SIGKILL);
        usleep(2000);
    }
    QByteArray out;
    char buf[4096];
    ssize_t n;
    while ((n = ::read(fds[0], buf, sizeof(buf))) > 0)
        out.append(buf, n);
    ::close(fds[0]);
    if (r.hung) {
        r.failed = true;
        r.key = "hang";
        r.message = QString("the code did not come back within %1 s of real time").arg(limit);
        return r;
    }
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        r.crashed = r.failed = true;
        QFile f(err);
        QString what = WIFSIGNALED(status) ? QString("killed by signal %1").arg(WTERMSIG(status)) : QString("exit code %1").arg(WEXITSTATUS(status));
        QStringList frames;
        if (f.open(QIODevice::ReadOnly)) {
            for (const QByteArray &line : f.readAll().split('\n')) {
                if (line.contains("ERROR: AddressSanitizer"))
                    what = QString::fromUtf8(line).section("ERROR: ", 1).section(" on ", 0, 0);
                int p = line.indexOf(" in ");
                if (p > 0 && line.contains("#") && (line.contains("remoteproxy") || line.contains("Slip") || line.contains("Monitor")) && frames.size() < 4)
                    frames << QString::fromUtf8(line.mid(p + 4)).section(" /", 0, 0).section("(", 0, 0);
            }
        }
        r.key = "crash:" + (frames.isEmpty() ? what : frames.first());
        r.message = "the process died: " + what + " [" + frames.join(" <- ") + "]";
        return r;
    }
    QList<QByteArray> parts = out.split('\n');
    r.hash = parts.value(0).toULongLong();
    r.failed = parts.value(1) == "1";
    r.key = QString::fromUtf8(parts.value(2));
    r.message = QString::fromUtf8(out.mid(parts.value(0).size() + parts.value(1).size() + parts.value(2).size() + 3));
    return r;
}

static QtMessageHandler g_oldHandler = nullptr;
static bool g_log = false;
static void quiet(QtMsgType t, const QMessageLogContext &c, const QString &m)
{
    if (g_log)
        fprintf(stderr, "[%s] %s\n", c.category, m.toUtf8().constData());
    if (t == QtFatalMsg) {
        fprintf(stderr, "FATAL %s\n", m.toUtf8().constData());
        abort();
    }
}

static void rmTree(const QString &d)
{
    if (d.startsWith("/tmp/nrpmc."))
        QDir(d).removeRecursively();
}

int main(int argc, char **argv)
{
    QString id, out, replayDir, known, traceOf;
    qint64 only = -1;
    int workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    bool list = false;
    double cap = 600;
    for (int i = 1; i < argc; ++i) {
        QString a = argv[i];
        auto val = [&]() { return QString::fromLocal8Bit(argv[++i]); };
        if (a == "--check")
            id = val();
        else if (a == "--thorough")
            g_thorough = true;
        else if (a == "--out")
            out = val();
        else if (a == "--replays")
            replayDir = val();
        else if (a == "--known")
            known = val();
        else if (a == "--case")
            only = val().toLongLong();
        else if (a == "--workers")
            workers = val().toInt();
        else if (a == "--cap")
            cap = val().toDouble();
        else if (a == "--log")
            g_log = true;
        else if (a == "--list")
            list = true;
        else if (a == "--find")
            traceOf = val();
    }
    if (workers < 1)
        workers = 1;
    if (workers > 60)
        workers = 60;
    signal(SIGPIPE, SIG_IGN);
    qputenv("QT_HASH_SEED", "0");
    qputenv("QT_LOGGING_RULES", g_log ? "*.debug=true;qt.*.debug=false" : "*.debug=false");
    qputenv("QT_NO_GLIB", "1");
    qputenv("TZ", "UTC");
    qputenv("no_proxy", "*");
    qSetGlobalQHashSeed(0);
    qInstallMessageHandler(quiet);
    struct rlimit rl;
    getrlimit(RLIMIT_NOFILE, &rl);
    rl.rlim_cur = rl.rlim_max < 8000 ? rl.rlim_max : 8000;
    setrlimit(RLIMIT_NOFILE, &rl);

    char tmpl[] = "/tmp/nrpmc.XXXXXX";
    if (!mkdtemp(tmpl))
        return 3;
    g_scratchRoot = tmpl;
    g_mainPid = getpid();

    sim::setNowNs(1000000000LL);
    g_disp = new SimDispatcher;
    QCoreApplication::setEventDispatcher(g_disp);
    QCoreApplication app(argc, argv);
    app.setApplicationName("nymea-remoteproxy-mc");

    if (list) {
        for (auto &p : checkRegistry())
            printf("%s\n", p.first.c_str());
        rmTree(g_scratchRoot);
        return 0;
    }
    if (!checkRegistry().count(id.toStdString())) {
        fprintf(stderr, "no such check\n");
        rmTree(g_scratchRoot);
        return 3;
    }
    double t0 = sim::wall();
    QFile kf(known);
    if (!known.isEmpty() && kf.open(QIODevice::ReadOnly)) {
        for (const QByteArray &line : kf.readAll().split('\n')) {
            QJsonObject o = QJsonDocument::fromJson(line).object();
            if (o.value("property").toString() == id && o.value("kind").toString() == "finding")
                g_known.push_back({o.value("key").toString(), o.value("what").toString()});
        }
    }
    void *mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh = new (mem) Shared;
    for (int i = 0; i < 64; ++i)
        g_sh->current[i] = -1;

    std::unique_ptr<Check> check(checkRegistry()[id.toStdString()]());
    check->prepare(g_thorough);

    if (!traceOf.isEmpty()) {
        for (size_t i = 0; i < check->count(); ++i)
            if (check->describe(i).contains(traceOf))
                printf("%zu %s\n", i, check->describe(i).toUtf8().constData());
        rmTree(g_scratchRoot);
        return 0;
    }
    if (only >= 0) {
        printf("case %lld: %s\n", (long long)only, check->describe(only).toUtf8().constData());
        SoloResult r = solo(*check, only, 600, true);
        printf("%s %s: %s\n", r.failed ? "FAILED" : "ok", r.key.toUtf8().constData(), r.message.toUtf8().constData());
        rmTree(g_scratchRoot);
        return r.failed ? 1 : 0;
    }

    // determinism self-test: some executions twice, each in its own process, must look the same
    int detChecked = 0, detBad = 0;
    const size_t n = check->count();
    if (n) {
        std::vector<size_t> pick = {0, n / 3, n / 2, n - 1};
        for (size_t i : pick) {
            SoloResult a = solo(*check, i, check->caseSeconds), b = solo(*check, i, check->caseSeconds);
            detChecked++;
            if (!a.failed && !b.failed && a.hash != b.hash) {
                detBad++;
                fprintf(stderr, "NONDETERMINISTIC case %zu: %s\n", i, check->describe(i).toUtf8().constData());
            }
        }
    }

    std::vector<pid_t> pids(workers, 0);
    std::vector<std::pair<quint64, bool>> died; // index, hung
    auto spawn = [&](int w) {
        pid_t p = forkChild();
        if (p == 0) {
            workerBody(*check, w, g_scratchRoot + QString("/w%1.err").arg(w));
            _exit(0);
        }
        pids[w] = p;
    };
    for (int w = 0; w < workers; ++w)
        spawn(w);
    bool capped = false;
    int live = workers, rounds = 0;
    while (live > 0) {
        usleep(10000);
        if (++rounds % 16 == 0)
          for (int w = 0; w < workers; ++w)
            if (pids[w] && tooBig(pids[w]))
                kill(pids[w], SIGKILL);
        for (int w = 0; w < workers; ++w) {
            if (!pids[w])
                continue;
            int status;
            bool hung = false;
            qint64 cur = g_sh->current[w];
            if (cur >= 0 && (qint64)msNow() - (qint64)g_sh->started[w] > (qint64)check->caseSeconds * 1000) {
                kill(pids[w], SIGKILL);
                hung = true;
                waitpid(pids[w], &status, 0);
            } else if (waitpid(pids[w], &status, WNOHANG) != pids[w]) {
                continue;
            }
            pids[w] = 0;
            live--;
            if (hung || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                cur = g_sh->current[w];
                if (cur >= 0)
                    died.push_back({(quint64)cur, hung});
                g_sh->current[w] = -1;
                g_sh->done++;
                if (died.size() < 12 && !g_sh->stop) {
                    spawn(w);
                    live++;
                } else {
                    g_sh->stop = 1;
                }
            }
        }
        if (sim::wall() - t0 > cap && !g_sh->stop) {
            capped = true;
            g_sh->stop = 1;
        }
    }

    struct Final {
        quint64 index;
        QString key, message;
    };
    std::vector<Final> finals;
    std::vector<std::pair<quint64, QString>> candidates;
    for (int i = 0; i < kMaxFail && i < g_sh->failCount; ++i)
        if (g_sh->fails[i].ready)
            candidates.push_back({g_sh->fails[i].index, QString::fromUtf8(g_sh->fails[i].key)});
    for (auto &d : died)
        candidates.push_back({d.first, d.second ? "hang" : "crash"});
    std::sort(candidates.begin(), candidates.end());
    int unconfirmed = 0, confirmed = 0;
    double tc = sim::wall();
    for (auto &cnd : candidates) {
        // enough to report; what hangs takes minutes
        if ((confirmed && sim::wall() - tc > 45) || sim::wall() - t0 > cap + 60)
            break;
        SoloResult r = solo(*check, cnd.first, cnd.second == "hang" ? check->caseSeconds * 3.0 : check->caseSeconds * 2.0);
        if (!r.failed) {
            unconfirmed++;
            fprintf(stderr, "not reproduced alone, not reported: case %llu (%s)\n", (unsigned long long)cnd.first, cnd.second.toUtf8().constData());
            continue;
        }
        finals.push_back({cnd.first, r.key, r.message});
        confirmed += knownIndex(r.key) < 0;
    }
    int violations = 0;
    for (auto &f : finals) {
        if (knownIndex(f.key) >= 0) {
            g_sh->knownSeen[knownIndex(f.key)] = 1;
            continue;
        }
        violations++;
        if (violations > 5)
            continue;
        QDir().mkpath(replayDir);
        QString path = replayDir + QString("/%1-%2-%3.txt").arg(id).arg(g_thorough ? "thorough" : "quick").arg(f.index);
        QFile rf(path);
        if (rf.open(QIODevice::WriteOnly | QIODevice::Truncate)) {
            rf.write(QString("property: %1\ntier: %2\ncase: %3\nhistory: %4\nkey: %5\nfailure: %6\nreplay: cd /verif && python3 check.py %1%7 --case %3\n")
                         .arg(id)
                         .arg(g_thorough ? "thorough" : "quick")
                         .arg(f.index)
                         .arg(check->describe(f.index), f.key, f.message, g_thorough ? " --thorough" : "")
                         .toUtf8());
        }
        printf("VIOLATION property=%s replay=%s\n", id.toUtf8().constData(), path.toUtf8().constData());
        printf("  case %llu: %s\n  %s: %s\n", (unsigned long long)f.index, check->describe(f.index).left(600).toUtf8().constData(), f.key.toUtf8().constData(), f.message.left(900).toUtf8().constData());
    }
    for (size_t k = 0; k < g_known.size() && k < (size_t)kMaxKnown; ++k)
        if (g_sh->knownSeen[k])
            printf("KNOWN-FINDING: property=%s %s\n", id.toUtf8().constData(), g_known[k].what.toUtf8().constData());

    quint64 states = check->modelStates() + g_sh->states + g_sh->prefixes, transitions = check->modelTransitions() + g_sh->steps;
    QJsonArray samples;
    for (size_t i : {size_t(0), n / 4, n / 2, n ? n - 1 : 0})
        if (i < n)
            samples.append(check->describe(i).left(500));
    double wallS = sim::wall() - t0;
    QJsonObject cov;
    cov["states"] = (double)states;
    cov["transitions"] = (double)transitions;
    cov["traces_validated_against_impl"] = (double)(quint64)g_sh->done;
    cov["samples"] = samples;
    cov["bounds"] = check->bounds();
    cov["executions_in_space"] = (double)n;
    cov["model_states"] = (double)check->modelStates();
    cov["model_transitions"] = (double)check->modelTransitions();
    cov["implementation_states_seen"] = (double)(quint64)g_sh->states;
    cov["execution_prefixes"] = (double)(quint64)g_sh->prefixes; // nodes of executions without an abstract state (stateless exploration)
    cov["implementation_steps_checked"] = (double)(quint64)g_sh->steps;
    cov["distinct_outcomes"] = (double)(quint64)g_sh->outcomes;
    cov["determinism_pairs"] = detChecked;
    cov["determinism_mismatches"] = detBad;
    cov["not_reproduced"] = unconfirmed;
    cov["exhaustive"] = !capped && g_sh->done >= n;
    if (capped)
        cov["cap"] = QString("stopped after %1 s: %2 of %3 executions").arg(cap).arg((quint64)g_sh->done).arg(n);
    QJsonObject ev;
    ev["property"] = id;
    ev["tier"] = g_thorough ? "thorough" : "quick";
    ev["seed"] = qEnvironmentVariableIntValue("VERIF_SEED");
    ev["level"] = "model_checking";
    ev["coverage"] = cov;
    ev["wall_s"] = wallS;
    ev["violations"] = violations;
    QStringList as = check->assumptions();
    as << "kernel sockets are replaced by AF_UNIX streams inside the process; packet loss and reordering below TCP are not modelled"
       << "time is virtual: a timer fires exactly when due, computation takes no time";
    ev["assumptions"] = QJsonArray::fromStringList(as);
    if (!out.isEmpty()) {
        QFile f(out);
        if (f.open(QIODevice::WriteOnly | QIODevice::Truncate))
            f.write(QJsonDocument(ev).toJson());
    }
    printf("%s %s: %llu executions of %zu, states=%llu transitions=%llu outcomes=%llu violations=%d wall=%.1fs%s\n", id.toUtf8().constData(), g_thorough ? "thorough" : "quick",
           (unsigned long long)(quint64)g_sh->done, n, (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)(quint64)g_sh->outcomes, violations, wallS,
           capped ? " CAPPED" : "");
    fflush(stdout);
    rmTree(g_scratchRoot);
    _exit(violations ? 1 : 0);
}

// C25 the frame codec, C26 the configuration file
#include "fix.h"
#include "proxyconfiguration.h"
#include "engine.h"
#include "slipdataprocessor.h"

#include <QDir>
#include <QFile>
#include <QSslCertificate>
#include <QSslConfiguration>
#include <QSslKey>
#include <unistd.h>
#include <algorithm>

// ---- C25 ----------------------------------------------------------------------------------------
namespace {

const quint8 kEnd = 0xC0, kEsc = 0xDB, kTEnd = 0xDC, kTEsc = 0xDD;

// independent decoder: what a frame's bytes up to (without) the end mean; false: damaged
bool refDecode(const QByteArray &enc, QByteArray *out)
{
    out->clear();
    for (int i = 0; i < enc.size(); ++i) {
        quint8 b = quint8(enc[i]);
        if (b == kEnd)
            return true;
        if (b != kEsc) {
            out->append(char(b));
            continue;
        }
        if (++i == enc.size())
            return false;
        b = quint8(enc[i]);
        if (b != kTEnd && b != kTEsc)
            return false;
        out->append(char(b == kTEnd ? kEnd : kEsc));
    }
    return true;
}

void roundTrip(Ctx &ctx, const QByteArray &d)
{
    ctx.step();
    QByteArray e = SlipDataProcessor::serializeData(d);
    if (e != ref::slipEncode(d))
        ctx.fail("slip:encode", QString("%1 encodes as %2").arg(QString(hex(d)), QString(hex(e))));
    if (SlipDataProcessor::deserializeData(e) != d)
        ctx.fail("slip:decode", QString("%1 decodes as %2").arg(QString(hex(e)), QString(hex(SlipDataProcessor::deserializeData(e)))));
    QByteArray cut = e.left(e.size() - 1); // as the receivers call it
    if (SlipDataProcessor::deserializeData(cut) != d)
        ctx.fail("slip:decode", QString("%1 decodes as %2").arg(QString(hex(cut)), QString(hex(SlipDataProcessor::deserializeData(cut)))));
}

void decodeAny(Ctx &ctx, const QByteArray &enc)
{
    ctx.step();
    QByteArray want;
    bool ok = refDecode(enc, &want);
    QByteArray got = SlipDataProcessor::deserializeData(enc);
    if (ok ? got != want : !got.isNull())
        ctx.fail("slip:damaged", QString("%1 decodes as %2, expected %3").arg(QString(hex(enc)), got.isNull() ? "nothing" : QString(hex(got)), ok ? QString(hex(want)) : QString("nothing")));
    if (ok && !want.isEmpty() && got.isNull())
        ctx.fail("slip:damaged", QString("%1 is taken for damaged").arg(QString(hex(enc))));
}

void frameTrip(Ctx &ctx, quint16 address, const QByteArray &d)
{
    ctx.step();
    SlipDataProcessor::Frame f;
    f.socketAddress = address;
    f.data = d;
    QByteArray raw = SlipDataProcessor::buildFrame(f);
    QByteArray want;
    want.append(char(address >> 8));
    want.append(char(address));
    want += d;
    if (raw != want)
        ctx.fail("slip:frame", QString("the frame of address %1 with %2 is built as %3").arg(address).arg(QString(hex(d)), QString(hex(raw))));
    SlipDataProcessor::Frame g = SlipDataProcessor::parseFrame(want);
    if (g.socketAddress != address || g.data != d)
        ctx.fail("slip:frame", QString("%1 is parsed as address %2 with %3").arg(QString(hex(want))).arg(g.socketAddress).arg(QString(hex(g.data))));
    QByteArray wire = SlipDataProcessor::serializeData(raw);
    if (wire != ref::frame(address, d))
        ctx.fail("slip:frame", QString("the frame of address %1 with %2 is sent as %3").arg(address).arg(QString(hex(d)), QString(hex(wire))));
}

// all strings of the given length over the alphabet, behind a prefix
void overAlphabet(const QByteArray &alphabet, int n, QByteArray s, const std::function<void(const QByteArray &)> &f)
{
    f(s);
    if (n == 0)
        return;
    s.append('\0');
    for (char c : alphabet) {
        s[s.size() - 1] = c;
        overAlphabet(alphabet, n - 1, s, f);
    }
}

const char kAlphabetRaw[] = {char(kEnd), char(kEsc), char(kTEnd), char(kTEsc), 0, 'A'};

ListCheck *c25()
{
    return new ListCheck("encode and decode: all byte strings up to length 2 (thorough: 3), all strings over six bytes (end, escape, both transposed, 0, A) up to length 7 (thorough: 9); frames of all 65536 addresses with 9 payloads; lengths 0 to 600 and up to 16 MB of six patterns",
        [](ListCheck &l, bool thorough) {
            QByteArray six(kAlphabetRaw, 6);
            for (int a = 0; a < 256; ++a)
                l.add(QString("all strings beginning with %1").arg(a, 2, 16, QChar('0')), [=](Ctx &x) {
                    QByteArray all;
                    for (int i = 0; i < 256; ++i)
                        all.append(char(i));
                    overAlphabet(all, thorough ? 2 : 1, QByteArray(1, char(a)), [&](const QByteArray &s) {
                        roundTrip(x, s);
                        decodeAny(x, s);
                    });
                    x.state(QByteArray::number(a));
                });
            for (char a : six)
                for (char b : six)
                    l.add(QString("six bytes, beginning with %1 %2").arg(quint8(a), 2, 16, QChar('0')).arg(quint8(b), 2, 16, QChar('0')), [=](Ctx &x) {
                        QByteArray p;
                        p.append(a);
                        p.append(b);
                        overAlphabet(six, thorough ? 7 : 5, p, [&](const QByteArray &s) {
                            roundTrip(x, s);
                            decodeAny(x, s);
                        });
                    });
            QList<QByteArray> payloads = {"", "x", QByteArray(1, char(kEnd)), QByteArray(1, char(kEsc)), QByteArray(1, 0), "\xdb\xdc", "\xdb\xdd\xc0\xc0", QByteArray(3, 0), "some text\n"};
            for (int hi = 0; hi < 256; ++hi)
                l.add(QString("addresses %1 to %2").arg(hi * 256).arg(hi * 256 + 255), [=](Ctx &x) {
                    for (int lo = 0; lo < 256; ++lo)
                        for (const QByteArray &d : payloads)
                            frameTrip(x, quint16(hi * 256 + lo), d);
                });
            std::vector<int> sizes;
            for (int n = 0; n <= 600; ++n)
                sizes.push_back(n);
            for (int n : {1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8191, 8192, 10240, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 1000000, 1048576, 1048577, 4194305, 16777217})
                sizes.push_back(n);
            for (int n : sizes)
                l.add(QString("patterns of %1 bytes").arg(n), [=](Ctx &x) {
                    for (char c : six) {
                        roundTrip(x, QByteArray(n, c));
                        frameTrip(x, 0x1234, QByteArray(n, c));
                    }
                    roundTrip(x, pattern(n, 3));
                    frameTrip(x, 0xC0DB, pattern(n, 5));
                });
            l.add("nothing", [](Ctx &x) {
                roundTrip(x, QByteArray());
                QByteArray got = SlipDataProcessor::deserializeData(QByteArray());
                if (!got.isEmpty())
                    x.fail("slip:decode", "something from nothing");
                SlipDataProcessor::parseFrame(QByteArray());
                SlipDataProcessor::parseFrame(QByteArray(1, 'a'));
            });
        });
}

// ---- C26 ----------------------------------------------------------------------------------------
struct Key {
    const char *group, *name;
    const char *values[3];
    std::function<QString(const remoteproxy::ProxyConfiguration &)> get;
    const char *missing; // what it means when it is not given
};

QString yes(bool b) { return b ? "true" : "false"; }
typedef remoteproxy::ProxyConfiguration Conf;

const std::vector<Key> &keys()
{
    static const std::vector<Key> k = {
        {"ProxyServer", "name", {"some proxy", "\"  a  proxy \"", "nymea \\\"x\\\" {1}"}, [](const Conf &c) { return c.serverName(); }, "nymea-remoteproxy"},
        {"ProxyServer", "writeLogs", {"true", "false", "true"}, [](const Conf &c) { return yes(c.writeLogFile()); }, "false"},
        {"ProxyServer", "logFile", {"/nowhere/a.log", "b.log", "/nowhere/c d.log"}, [](const Conf &c) { return c.logFileName(); }, "/var/log/nymea-remoteproxy.log"},
        {"ProxyServer", "logEngineEnabled", {"true", "false", "true"}, [](const Conf &c) { return yes(c.logEngineEnabled()); }, "false"},
        {"ProxyServer", "monitorSocket", {"/nowhere/m.sock", "m2", "/nowhere/m 3"}, [](const Conf &c) { return c.monitorSocketFileName(); }, "/tmp/nymea-remoteproxy.monitor"},
        {"ProxyServer", "jsonRpcTimeout", {"5000", "1", "60000"}, [](const Conf &c) { return QString::number(c.jsonRpcTimeout()); }, "10000"},
        {"ProxyServer", "inactiveTimeout", {"4000", "2", "70000"}, [](const Conf &c) { return QString::number(c.inactiveTimeout()); }, "8000"},
        {"SSL", "enabled", {"false", "true", "false"}, [](const Conf &c) { return yes(c.sslEnabled()); }, "true"},
        {"UnixSocketServerTunnelProxy", "unixSocketFileName", {"/nowhere/u.sock", "u2", "/nowhere/u 3"}, [](const Conf &c) { return c.unixSocketFileName(); }, "/run/nymea-remoteproxy.socket"},
        {"WebSocketServerTunnelProxy", "host", {"0.0.0.0", "::1", "192.168.7.9"}, [](const Conf &c) { return c.webSocketServerTunnelProxyHost().toString(); }, "127.0.0.1"},
        {"WebSocketServerTunnelProxy", "port", {"80", "65535", "2213"}, [](const Conf &c) { return QString::number(c.webSocketServerTunnelProxyPort()); }, "2212"},
        {"TcpServerTunnelProxy", "host", {"0.0.0.0", "::1", "192.168.7.8"}, [](const Conf &c) { return c.tcpServerTunnelProxyHost().toString(); }, "127.0.0.1"},
        {"TcpServerTunnelProxy", "port", {"443", "65535", "2212"}, [](const Conf &c) { return QString::number(c.tcpServerTunnelProxyPort()); }, "2213"},
    };
    return k;
}

// what the value in the file stands for
QString meaning(const char *v)
{
    QString s = QString(v).replace("\\\"", "\"");
    return s.startsWith('"') ? s.mid(1, s.size() - 2) : s; // quotes keep the spaces
}

QString writeConf(const QString &file, const std::vector<int> &pick, const QMap<QString, QString> &ssl)
{
    // pick: -1 not given, else which value
    QString text, group;
    bool sslDone = false;
    for (size_t i = 0; i < keys().size(); ++i) {
        const Key &k = keys()[i];
        if (group != k.group) {
            group = k.group;
            text += "\n[" + group + "]\n";
            if (group == "SSL") {
                for (auto it = ssl.begin(); it != ssl.end(); ++it)
                    text += it.key() + "=" + it.value() + "\n";
                sslDone = true;
            }
        }
        if (pick[i] >= 0) {
            QString v = k.values[pick[i]];
            text += QString(k.name) + "=" + (v.contains('{') ? "\"" + v + "\"" : v) + "\n";
        }
    }
    Q_UNUSED(sslDone)
    QFile f(file);
    if (f.open(QIODevice::WriteOnly | QIODevice::Truncate))
        f.write(text.toUtf8());
    return text;
}

QMap<QString, QString> goodSsl()
{
    return {{"certificate", MC_DIR "/certs/cert.pem"}, {"certificateKey", MC_DIR "/certs/key.pem"}};
}

void compare(Ctx &ctx, const Conf &c, const std::vector<int> &pick, const QString &what)
{
    QByteArray seen;
    for (size_t i = 0; i < keys().size(); ++i) {
        const Key &k = keys()[i];
        QString want = pick[i] < 0 ? QString(k.missing) : meaning(k.values[pick[i]]), got = k.get(c);
        ctx.step();
        seen += got.toUtf8() + "|";
        if (got != want)
            ctx.fail("conf:value", QString("%1: %2/%3 is '%4', expected '%5'").arg(what, k.group, k.name, got, want));
    }
    ctx.observe(seen);
    ctx.state(seen);
    if (c.sslConfiguration().localCertificate().isNull() || c.sslConfiguration().privateKey().isNull())
        ctx.fail("conf:ssl", what + ": certificate or key are not loaded");
}

QString describePick(const std::vector<int> &p)
{
    QString s;
    for (int x : p)
        s += x < 0 ? '-' : QChar('a' + x);
    return s;
}

void loadAndCompare(Ctx &ctx, const std::vector<int> &pick)
{
    QString file = scratchDir() + "/c26.conf";
    writeConf(file, pick, goodSsl());
    Conf c;
    if (!c.loadConfiguration(file))
        return ctx.fail("conf:load", "a good file is refused: " + describePick(pick));
    compare(ctx, c, pick, describePick(pick));
}

// the same object loads another file: nothing of the first remains
void loadTwice(Ctx &ctx, const std::vector<int> &a, const std::vector<int> &b)
{
    QString file = scratchDir() + "/c26.conf";
    Conf c;
    writeConf(file, a, goodSsl());
    c.loadConfiguration(file);
    QString other = scratchDir() + "/c26b.conf";
    writeConf(other, b, goodSsl());
    if (!c.loadConfiguration(other))
        return ctx.fail("conf:load", "a good file is refused: " + describePick(b));
    compare(ctx, c, b, describePick(a) + " then " + describePick(b));
}

ListCheck *c26Values()
{
    return new ListCheck("configuration files: 13 keys, every subset of them given (8192) and every pair of values of every two keys; all pairs of files with one key each loaded after one another",
        [](ListCheck &l, bool thorough) {
            int n = (int)keys().size();
            for (int m = 0; m < (1 << n); m += 64)
                l.add(QString("subsets %1 to %2").arg(m).arg(m + 63), [=](Ctx &x) {
                    for (int s = m; s < m + 64; ++s)
                        for (int v = 0; v < (thorough ? 3 : 1); ++v) {
                            std::vector<int> p(n, -1);
                            for (int i = 0; i < n; ++i)
                                if (s >> i & 1)
                                    p[i] = thorough ? v : (s + i) % 3;
                            loadAndCompare(x, p);
                        }
                });
            for (int i = 0; i < n; ++i)
                for (int j = i + 1; j < n; ++j)
                    l.add(QString("values of %1 and %2").arg(keys()[i].name, keys()[j].name), [=](Ctx &x) {
                        for (int a = -1; a < 3; ++a)
                            for (int b = -1; b < 3; ++b)
                                for (int rest = -1; rest < 3; ++rest) {
                                    std::vector<int> p(n, rest);
                                    p[i] = a;
                                    p[j] = b;
                                    loadAndCompare(x, p);
                                }
                    });
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    l.add(QString("%1, then another file with %2").arg(keys()[i].name, keys()[j].name), [=](Ctx &x) {
                        for (int a = 0; a < 3; ++a)
                            for (int b = 0; b < 3; ++b) {
                                std::vector<int> p(n, -1), q(n, -1);
                                p[i] = a;
                                q[j] = b;
                                loadTwice(x, p, q);
                            }
                    });
        });
}

ListCheck *c26Files()
{
    return new ListCheck("certificate, key and chain files that are good, missing, unreadable, empty, text, of the wrong kind, cut short, of two certificates, in all combinations; the certificates in use are those of the files", [](ListCheck &l, bool) {
        // what may be where the file should be
        enum { Good, Missing, Directory, Empty, Text, Wrong, Cut, Other, Two, Kinds, None = Kinds, NotGiven };
        static const char *const names[] = {"good", "missing", "a directory", "empty", "plain text", "the other kind", "cut short", "another", "two", "none", "not given"};
        auto readFile = [](const QString &n) {
            QFile f(n);
            f.open(QIODevice::ReadOnly);
            return f.readAll();
        };
        for (int cert = 0; cert < Other; ++cert)
            for (int key = 0; key < Other; ++key)
                for (int chain = 0; chain <= NotGiven; ++chain)
                    for (int on = 0; on < 2; ++on) {
                        if (chain == Other || (cert && key && chain != Good && chain != NotGiven))
                            continue;
                        l.add(QString("certificate %1, key %2, chain %3, TLS %4").arg(names[cert], names[key], names[chain]).arg(on), [=](Ctx &x) {
                            QString dir = scratchDir();
                            const QString certs = MC_DIR "/certs/";
                            QByteArray ownCert = readFile(certs + "cert.pem"), ownKey = readFile(certs + "key.pem"), otherCert = readFile(certs + "other-cert.pem");
                            auto path = [&](int k, const char *role, const QByteArray &good, const QByteArray &wrong) {
                                if (k == None)
                                    return QString();
                                QString n = dir + "/c26-" + role + ".pem";
                                QFile::remove(n);
                                if (k == Missing)
                                    return n;
                                if (k == Directory)
                                    return dir;
                                QFile f(n);
                                f.open(QIODevice::WriteOnly | QIODevice::Truncate);
                                f.write(k == Good ? good : k == Empty ? QByteArray() : k == Text ? QByteArray("no certificate here\n") : k == Wrong ? wrong : k == Cut ? good.left(good.size() / 2) : good + otherCert);
                                return n;
                            };
                            QMap<QString, QString> ssl;
                            ssl["certificate"] = path(cert, "cert", ownCert, ownKey);
                            ssl["certificateKey"] = path(key, "key", ownKey, ownCert);
                            if (chain != NotGiven)
                                ssl["certificateChain"] = path(chain, "chain", ownCert, ownKey);
                            std::vector<int> p(keys().size(), 0);
                            for (size_t i = 0; i < keys().size(); ++i)
                                if (QByteArray(keys()[i].name) == "enabled")
                                    p[i] = on;
                            writeConf(dir + "/c26.conf", p, ssl);
                            Conf c;
                            bool ok = c.loadConfiguration(dir + "/c26.conf");
                            bool want = cert == Good && key == Good && (chain == Good || chain == Two || chain == None || chain == NotGiven);
                            x.step();
                            x.outcome(ok ? "loaded" : "refused");
                            if (on && ok != want)
                                x.fail("conf:files", ok ? "loaded without its files" : "refused");
                            if (!ok || !want)
                                return;
                            compare(x, c, p, "files");
                            QSslCertificate ce(ownCert), oe(otherCert);
                            QSslKey ke(ownKey, QSsl::Rsa);
                            if (c.sslConfiguration().localCertificate() != ce || c.sslConfiguration().privateKey() != ke)
                                x.fail("conf:files", "another certificate or key is in use");
                            QList<QSslCertificate> ca = c.sslConfiguration().caCertificates();
                            if ((chain == Good || chain == Two) != ca.contains(ce) || (chain == Two) != ca.contains(oe))
                                x.fail("conf:files", "the chain is not in use as given");
                        });
                    }
        for (int i = 0; i < 3; ++i)
            l.add(QString("no such file %1").arg(i), [=](Ctx &x) {
                Conf c;
                x.step();
                if (c.loadConfiguration(i == 0 ? scratchDir() + "/no.conf" : i == 1 ? QString() : QString("/nowhere/no.conf")))
                    x.fail("conf:load", "a missing file is taken for a configuration");
            });
    });
}

// what the proxy does with it
ListCheck *c26Proxy()
{
    return new ListCheck("the running proxy: all combinations of TLS, two ports, two names, socket files and time limits loaded from a file; it listens there and only there, gives this name and applies these limits; all combinations of seven addresses each and of five and four ports up to 65535: it listens on exactly these", [](ListCheck &l, bool) {
        for (int bits = 0; bits < 128; ++bits)
            l.add(QString("combination %1").arg(bits), [=](Ctx &x) {
                World w(x);
                w.dir = scratchDir();
                bool tls = bits & 1;
                int tcp = bits & 2 ? 4000 : 2213, ws = bits & 4 ? 4001 : 2212;
                if (bits & 8)
                    std::swap(tcp, ws);
                QString name = bits & 16 ? "proxy one" : "the 2nd proxy";
                QString tag = bits & 32 ? "x" : "y";
                int inactive = bits & 64 ? 3000 : 11000;
                QString mon = w.dir + "/mon-" + tag, un = w.dir + "/un-" + tag;
                QFile f(w.dir + "/c26.conf");
                f.open(QIODevice::WriteOnly | QIODevice::Truncate);
                QString text = "[ProxyServer]\nname=@name\nmonitorSocket=@mon\ninactiveTimeout=@inactive\n[SSL]\nenabled=@tls\ncertificate=@mc/certs/cert.pem\ncertificateKey=@mc/certs/key.pem\n"
                               "[UnixSocketServerTunnelProxy]\nunixSocketFileName=@un\n[WebSocketServerTunnelProxy]\nport=@ws\n[TcpServerTunnelProxy]\nport=@tcp\n";
                text.replace("@name", name).replace("@mon", mon).replace("@inactive", QString::number(inactive)).replace("@tls", tls ? "true" : "false").replace("@mc", MC_DIR).replace("@un", un);
                text.replace("@ws", QString::number(ws)).replace("@tcp", QString::number(tcp));
                f.write(text.toUtf8());
                f.close();
                Conf *c = new Conf(nullptr);
                if (!c->loadConfiguration(f.fileName())) {
                    delete c;
                    return x.fail("conf:load", "refused");
                }
                remoteproxy::Engine::instance()->start(c);
                w.settle();
                for (int port : {2212, 2213, 4000, 4001}) {
                    int fd = sim::rawConnect(quint16(port));
                    bool open = fd >= 0;
                    x.step();
                    if (open != (port == tcp || port == ws))
                        x.fail("conf:ports", QString("port %1 is %2").arg(port).arg(open ? "open" : "closed"));
                    if (!open)
                        continue;
                    // in the clear: TCP answers, TLS and the web socket do not
                    RawLink link(fd);
                    link.write(ref::request(1, "RemoteProxy.Hello"));
                    w.pumps.push_back([&link] { return link.pump(); });
                    w.settle();
                    w.pumps.pop_back();
                    bool answered = link.rx.contains("\"status\"");
                    if (answered != (port == tcp && !tls))
                        x.fail("conf:tls", QString("port %1 %2 a request in the clear").arg(port).arg(answered ? "answers" : "does not answer"));
                    if (answered && !link.rx.contains("\"" + name.toUtf8() + "\""))
                        x.fail("conf:name", "Hello does not give the configured name");
                }
                for (QString t : {"x", "y"}) {
                    int a = sim::rawUnixConnect((w.dir + "/mon-" + t).toUtf8().constData()), b = sim::rawUnixConnect((w.dir + "/un-" + t).toUtf8().constData());
                    x.step();
                    if ((a >= 0) != (t == tag) || (b >= 0) != (t == tag))
                        x.fail("conf:sockets", "the socket files are not the configured ones");
                    for (int fd : {a, b})
                        if (fd >= 0)
                            ::close(fd);
                }
                w.settle();
                RawLink idle(sim::rawUnixConnect(un.toUtf8().constData()));
                w.pumps.push_back([&idle] { return idle.pump(); });
                w.settle();
                int lived = 0;
                for (; lived <= 20000 && !idle.eof; lived += 500) {
                    w.advance(500);
                    w.settle();
                }
                w.pumps.pop_back();
                if (lived < inactive || lived > inactive + 1000)
                    x.fail("conf:limits", QString("an idle connection ended after %1 ms").arg(lived));
                x.outcome(QByteArray::number(lived));
                w.stop();
                w.settle();
                QFile::remove(mon);
                QFile::remove(un);
            });
        // how long a connection without a role may stay
        for (int inactive : {100, 999, 8000, 29999, 30001, 32767, 32768, 60001, 65536, 100000, 600000, 3600000})
            for (int way = 0; way < 3; ++way)
                l.add(QString("inactiveTimeout %1, way %2").arg(inactive).arg(way), [=](Ctx &x) {
                    World w(x);
                    w.dir = scratchDir();
                    QFile f(w.dir + "/c26.conf");
                    f.open(QIODevice::WriteOnly | QIODevice::Truncate);
                    QString un = w.dir + "/un-i";
                    f.write(QString("[ProxyServer]\nmonitorSocket=%1/mon-i\ninactiveTimeout=%2\n[SSL]\nenabled=false\ncertificate=%4/certs/cert.pem\ncertificateKey=%4/certs/key.pem\n[UnixSocketServerTunnelProxy]\nunixSocketFileName=%3\n").arg(w.dir).arg(inactive).arg(un, MC_DIR).toUtf8());
                    f.close();
                    Conf *c = new Conf(nullptr);
                    if (!c->loadConfiguration(f.fileName())) {
                        delete c;
                        return x.fail("conf:load", "refused");
                    }
                    remoteproxy::Engine::instance()->start(c);
                    w.settle();
                    RawLink link(way == 2 ? sim::rawUnixConnect(un.toUtf8().constData()) : sim::rawConnect(way ? 2212 : 2213));
                    if (way == 1)
                        link.write("GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: MDEyMzQ1Njc4OWFiY2RlZg==\r\nSec-WebSocket-Version: 13\r\n\r\n");
                    w.pumps.push_back([&link] { return link.pump(); });
                    w.settle();
                    int slack = inactive / 12 + 2; // timers are coarse
                    w.advance(inactive - slack);
                    w.settle();
                    x.step();
                    if (link.eof)
                        x.fail("conf:limits", QString("an idle connection ended before %1 ms").arg(inactive));
                    w.advance(slack + slack / 2 + 1000);
                    w.settle();
                    x.step();
                    if (!link.eof && link.rx.isEmpty() == (way != 1))
                        x.fail("conf:limits", QString("an idle connection did not end after %1 ms").arg(inactive));
                    x.outcome(QByteArray::number(link.eof));
                    w.pumps.pop_back();
                    w.stop();
                    w.settle();
                });
        // the addresses and ports it listens on
        for (const char *wsHost : {"", "0.0.0.0", "127.0.0.1", "192.168.7.9", "::", "::1", "2001:db8::7"})
            for (const char *tcpHost : {"", "0.0.0.0", "127.0.0.1", "192.168.7.8", "::", "::1", "2001:db8::8"})
                for (int ws : {1, 2212, 32767, 32768, 65535})
                    for (int tcp : {2, 2213, 32769, 65534})
                        l.add(QString("web socket on '%1' port %2, TCP on '%3' port %4").arg(wsHost).arg(ws).arg(tcpHost).arg(tcp), [=](Ctx &x) {
                            World w(x);
                            w.dir = scratchDir();
                            QString mon = w.dir + "/mon-h", un = w.dir + "/un-h";
                            QFile f(w.dir + "/c26.conf");
                            f.open(QIODevice::WriteOnly | QIODevice::Truncate);
                            QString text = "[ProxyServer]\nmonitorSocket=@mon\n[SSL]\nenabled=false\ncertificate=@mc/certs/cert.pem\ncertificateKey=@mc/certs/key.pem\n"
                                           "[UnixSocketServerTunnelProxy]\nunixSocketFileName=@un\n[WebSocketServerTunnelProxy]\n@wshost\nport=@ws\n[TcpServerTunnelProxy]\n@tcphost\nport=@tcp\n";
                            text.replace("@mon", mon).replace("@mc", MC_DIR).replace("@un", un);
                            text.replace("@wshost", *wsHost ? QString("host=") + wsHost : QString()).replace("@tcphost", *tcpHost ? QString("host=") + tcpHost : QString());
                            text.replace("@ws", QString::number(ws)).replace("@tcp", QString::number(tcp));
                            f.write(text.toUtf8());
                            f.close();
                            Conf *c = new Conf(nullptr);
                            if (!c->loadConfiguration(f.fileName())) {
                                delete c;
                                return x.fail("conf:load", "refused");
                            }
                            remoteproxy::Engine::instance()->start(c);
                            w.settle();
                            struct Way {
                                int port;
                                const char *host;
                            };
                            for (const Way &way : {Way{ws, wsHost}, Way{tcp, tcpHost}}) {
                                QHostAddress want(*way.host ? QString(way.host) : QString("127.0.0.1")), got(QString::fromLatin1(sim::boundHost(quint16(way.port))));
                                x.step();
                                x.observe(sim::boundHost(quint16(way.port)));
                                int fd = sim::rawConnect(quint16(way.port));
                                if (fd < 0 || got != want)
                                    x.fail("conf:hosts", QString("port %1 is bound to '%2', configured is '%3'").arg(way.port).arg(got.toString(), want.toString()));
                                if (fd >= 0)
                                    ::close(fd);
                            }
                            w.settle();
                            w.stop();
                            w.settle();
                            QFile::remove(mon);
                            QFile::remove(un);
                        });
    });
}

} // namespace

static CheckReg r25("C25", [] { return c25(); });
static CheckReg r26("C26", [] {
    MultiCheck *m = new MultiCheck;
    m->add("values", c26Values());
    m->add("files", c26Files());
    m->add("proxy", c26Proxy());
    return m;
});

// A small program around the client library for demonstrations: commands on stdin, events on stdout.
#include <QtCore>
#include <QSocketNotifier>
#include <cstdio>
#include <unistd.h>
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
using namespace remoteproxyclient;
static void say(const QString &s) { printf("%s\n", qUtf8Printable(s)); fflush(stdout); }
// which errors to accept: all, or those CAPP_ACCEPT lists by number
template<class T> static void ssl(T *t, const QList<QSslError> &errors)
{
    say(QString("sslerrors %1").arg(errors.size()));
    if (!qEnvironmentVariableIsSet("CAPP_ACCEPT")) { t->ignoreSslErrors(); return; }
    QStringList ok = qEnvironmentVariable("CAPP_ACCEPT").split(',');
    QList<QSslError> l;
    for (const QSslError &e : errors) if (ok.contains(QString::number(int(e.error())))) l << e;
    if (!l.isEmpty()) t->ignoreSslErrors(l);
}
template<class F> static void commands(F f)
{
    static QByteArray buffer;
    auto *n = new QSocketNotifier(0, QSocketNotifier::Read, qApp);
    QObject::connect(n, &QSocketNotifier::activated, qApp, [f, n](int) {
        char b[65536]; ssize_t r = read(0, b, sizeof b);
        if (r <= 0) { n->setEnabled(false); qApp->quit(); return; }
        buffer.append(b, int(r));
        int e;
        while ((e = buffer.indexOf('\n')) >= 0) { QStringList l = QString::fromUtf8(buffer.left(e)).split(' '); buffer.remove(0, e + 1); f(l); }
    });
}
int main(int c, char **v)
{
    QCoreApplication app(c, v);
    QLoggingCategory::setFilterRules("*.debug=false\n*.warning=false");
    QString mode = v[1]; QUrl url(v[2]); bool ws = url.scheme().startsWith("ws");
    QUuid uuid(v[3]);
    if (mode == "server") {
        auto *s = new TunnelProxySocketServer(uuid, "app", ws ? TunnelProxySocketServer::ConnectionTypeWebSocket : TunnelProxySocketServer::ConnectionTypeTcpSocket, &app);
        QMap<int, TunnelProxySocket *> sockets; 
        QObject::connect(s, &TunnelProxySocketServer::runningChanged, [=](bool r) { say(QString("running %1").arg(r)); });
        QObject::connect(s, &TunnelProxySocketServer::sslErrors, [=](const QList<QSslError> &e) { ssl(s, e); });
        QObject::connect(s, &TunnelProxySocketServer::serverErrorOccurred, [=](TunnelProxySocketServer::Error e) { say(QString("servererror %1").arg(int(e))); });
        QObject::connect(s, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *t) {
            int a = t->socketAddress(); sockets[a] = t;
            say(QString("client %1 %2 %3").arg(a).arg(t->clientUuid().toString(), t->clientName()));
            QObject::connect(t, &TunnelProxySocket::dataReceived, [=](const QByteArray &d) { say(QString("data %1 %2").arg(a).arg(QString(d.toHex()))); });
            QObject::connect(t, &TunnelProxySocket::disconnected, [=]() { say(QString("disconnected %1").arg(a)); });
            QObject::connect(t, &QObject::destroyed, [=]() { say(QString("destroyed %1").arg(a)); });
        });
        QObject::connect(s, &TunnelProxySocketServer::clientDisconnected, [&](TunnelProxySocket *t) { say(QString("gone %1 %2").arg(t->socketAddress()).arg(t->connected())); if (sockets.value(t->socketAddress()) == t) sockets.remove(t->socketAddress()); });
        commands([&](const QStringList &l) {
            if (l[0] == "start") say(QString("started %1").arg(s->startServer(l.size() > 1 ? QUrl(l[1]) : url)));
            else if (l[0] == "stop") s->stopServer();
            else if (l[0] == "state") say(QString("state %1 %2 [%3]").arg(int(s->state())).arg(s->running()).arg(s->remoteProxyServerName()));
            else if (l[0] == "write") { if (auto *t = sockets.value(l[1].toInt())) t->writeData(QByteArray::fromHex(l[2].toLatin1())); }
            else if (l[0] == "kick") { if (auto *t = sockets.value(l[1].toInt())) t->disconnectSocket(); }
            else if (l[0] == "stopindata") {
                TunnelProxySocket *t = sockets.value(l[1].toInt()); QPointer<TunnelProxySocket> p(t);
                QObject::connect(t, &TunnelProxySocket::dataReceived, s, [s, p](const QByteArray &) { s->stopServer(); say(QString("within %1").arg(!p.isNull())); });
            }
            else if (l[0] == "quit") app.quit();
        });
        return app.exec();
    }
    auto *r = new TunnelProxyRemoteConnection(uuid, "app", ws ? TunnelProxyRemoteConnection::ConnectionTypeWebSocket : TunnelProxyRemoteConnection::ConnectionTypeTcpSocket, &app);
    QUuid server(v[4]);
    QObject::connect(r, &TunnelProxyRemoteConnection::stateChanged, [=](TunnelProxyRemoteConnection::State st) { say(QString("state %1").arg(int(st))); });
    QObject::connect(r, &TunnelProxyRemoteConnection::remoteConnectedChanged, [=](bool b) { say(QString("remote %1").arg(b)); });
    QObject::connect(r, &TunnelProxyRemoteConnection::errorOccurred, [=](QAbstractSocket::SocketError e) { say(QString("error %1").arg(int(e))); });
    QObject::connect(r, &TunnelProxyRemoteConnection::sslErrors, [=](const QList<QSslError> &e) { ssl(r, e); });
    QObject::connect(r, &TunnelProxyRemoteConnection::dataReady, [=](const QByteArray &d) { say(QString("data 0 %1").arg(QString(d.toHex()))); });
    commands([&](const QStringList &l) {
        if (l[0] == "start") say(QString("started %1").arg(r->connectServer(l.size() > 1 ? QUrl(l[1]) : url, server)));
        else if (l[0] == "stop") r->disconnectServer();
        else if (l[0] == "send") say(QString("sent %1").arg(r->sendData(QByteArray::fromHex(l[1].toLatin1()))));
        else if (l[0] == "sendlen") say(QString("sent %1").arg(r->sendData(QByteArray(l[1].toInt(), char(l[2].toInt())))));
        else if (l[0] == "quit") app.quit();
    });
    return app.exec();
}

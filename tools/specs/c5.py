ID="reply-ids-one-byte"; PROP="C21"
NEEDS="more than 255 calls on one connection (two hours of keep-alive, or many disconnect requests)"
BREAKS="the responses of the proxy do not reach their calls any more, the replies pile up"
EDITS=[("libnymea-remoteproxyclient/proxyjsonrpcclient.cpp",'''    int commandId = dataMap.value("id").toInt();
''','''    int commandId = static_cast<quint8>(dataMap.value("id").toUInt());
''')]
SH='''
#!/bin/bash
# A call with an id above 255 has to get its response
exec python3 "$(dirname "$0")/demo.py"
'''
FILES={"main.cpp":'''
#include <QtCore>
#include "proxyjsonrpcclient.h"
#include "proxyconnection.h"
using namespace remoteproxyclient;
struct Loop : ProxyConnection {
    JsonRpcClient *c = nullptr;
    void sendData(const QByteArray &d) override { last = d; }
    void ignoreSslErrors() override {}
    void ignoreSslErrors(const QList<QSslError> &) override {}
    void connectServer(const QUrl &) override {}
    void disconnectServer() override {}
    QByteArray last;
};
int main(int c, char **v)
{
    QCoreApplication app(c, v);
    Loop l; JsonRpcClient j(&l); int got = 0;
    for (int i = 0; i < 1000; i++) {
        JsonReply *r = j.callHello();
        int id = QJsonDocument::fromJson(l.last).toVariant().toMap().value("id").toInt();
        QObject::connect(r, &JsonReply::finished, [&]() { got++; });
        j.processData(QString("{\\"id\\":%1,\\"status\\":\\"success\\"}\\n").arg(id).toUtf8());
    }
    printf("%d\\n", got);
    return got == 1000 ? 0 : 1;
}
''',"demo.py":'''
import os, subprocess, sys, tempfile, shutil
h = os.path.dirname(os.path.abspath(__file__)); root = os.getcwd(); d = tempfile.mkdtemp()
fl = subprocess.run("pkg-config --cflags --libs Qt5Core Qt5Network Qt5WebSockets", shell=True, capture_output=True, text=True, check=True).stdout.split()
subprocess.run(["g++", "-fPIC", "-std=c++17", "-I" + root + "/libnymea-remoteproxyclient", h + "/main.cpp", "-o", d + "/m", "-L" + root + "/_build/libnymea-remoteproxyclient", "-lnymea-remoteproxyclient"] + fl, check=True)
r = subprocess.run([d + "/m"], env=dict(os.environ, LD_LIBRARY_PATH=root + "/_build/libnymea-remoteproxyclient")).returncode
shutil.rmtree(d); sys.exit(r)
'''}

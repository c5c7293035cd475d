ID="self-signed-accepted"; PROP="C29"
NEEDS="a tunnel client program without -i and a proxy with a self-signed certificate whose only error is that"
BREAKS="the program registers at a proxy it has no reason to trust"
EDITS=[("tunnelclient/serverconnection.cpp",'''        if (m_insecure) {
            m_socketServer->ignoreSslErrors(errors);
''','''        if (m_insecure || (errors.count() == 1 && errors.first().error() == QSslError::SelfSignedCertificate)) {
            m_socketServer->ignoreSslErrors(errors);
''')]
DEMO='''
from px import *
with Proxy(tls=True) as px:
    px.p.kill(); px.p.wait()
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", px.dir + "/k.pem", "-out", px.dir + "/c.pem", "-days", "3000", "-subj", "/CN=127.0.0.1", "-addext", "subjectAltName=IP:127.0.0.1"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxyclient:" + px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    px.p = subprocess.Popen([px.root + "/_build/server/nymea-remoteproxy", "-c", px.dir + "/p.conf"], cwd=px.dir, env=env, stdout=px.log, stderr=px.log)
    time.sleep(1)
    def there(*opt):
        p = subprocess.Popen([px.root + "/_build/tunnelclient/nymea-remoteproxy-tunnelclient", "-s", "-u", "ssl://127.0.0.1:%d" % px.tcp, "--uuid", U(1)] + list(opt), cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            for _ in range(40):
                if px.monitor()["tunnelProxyStatistic"]["tunnelConnections"]: return True
                time.sleep(0.1)
            return False
        finally: p.kill(); p.wait(); time.sleep(0.5)
    got = there(), there("-i")
    print(got); sys.exit(0 if got == (False, True) else 1)
'''

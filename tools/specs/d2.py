ID="insecure-only-once"; PROP="C29"
NEEDS="a tunnel client program that serves over TLS with -i and a proxy that is started anew"
BREAKS="the certificate is ignored for the first connection only, the program never comes back"
EDITS=[("tunnelclient/serverconnection.cpp",'''        if (m_insecure) {
            m_socketServer->ignoreSslErrors(errors);
''','''        if (m_insecure) {
            m_socketServer->ignoreSslErrors(errors);
            m_insecure = false;
''')]
DEMO='''
from px import *
with Proxy(tls=True) as px:
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxyclient:" + px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/tunnelclient/nymea-remoteproxy-tunnelclient", "-s", "-i", "-u", "ssl://127.0.0.1:%d" % px.tcp, "--uuid", U(1)], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def there(t):
        for _ in range(t * 10):
            try:
                if px.monitor()["tunnelProxyStatistic"]["tunnelConnections"]: return True
            except (OSError, ValueError): pass
            time.sleep(0.1)
        return False
    try:
        first = there(6)
        px.p.kill(); px.p.wait(); time.sleep(0.3)
        px.p = subprocess.Popen([px.root + "/_build/server/nymea-remoteproxy", "-c", px.dir + "/p.conf"], cwd=px.dir, env=env, stdout=px.log, stderr=px.log)
        second = there(20)
    finally: p.kill(); p.wait()
    print(first, second); sys.exit(0 if first and second else 1)
'''

ID="web-socket-default-port"; PROP="C26"
NEEDS="a configuration that gives the port of the TCP server but none for the web socket server"
BREAKS="the web socket server's port is read from the TCP server's section if that comes with a host"
EDITS=[("libnymea-remoteproxy/proxyconfiguration.cpp",'''    setWebSocketServerTunnelProxyPort(static_cast<quint16>(settings.value("port", 2212).toInt()));
''','''    setWebSocketServerTunnelProxyPort(static_cast<quint16>(settings.value("port", settings.contains("host") ? 2212 : 2213).toInt()));
''')]
DEMO='''
from px import *
with Proxy() as px:
    conf = open(px.dir + "/p.conf").read().replace(str(px.tcp), str(free_port())).replace("tunnel.sock", "t2.sock").replace("mon.sock", "m2.sock")
    conf = conf.replace("host=127.0.0.1\\nport=%d" % px.ws, "", 1)
    open(px.dir + "/q.conf", "w").write(conf)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/server/nymea-remoteproxy", "-c", px.dir + "/q.conf"], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = False
    for _ in range(40):
        try: socket.create_connection(("127.0.0.1", 2212), 1).close(); ok = True; break
        except OSError: time.sleep(0.1)
    p.kill(); p.wait(); sys.exit(0 if ok else 1)
'''

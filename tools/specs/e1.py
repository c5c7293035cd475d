ID="hosts-mixed-up"; PROP="C26"
NEEDS="a configuration whose two listeners have different host addresses"
BREAKS="the web socket listener is opened on the address of the TCP one, which may be a public one"
EDITS=[("libnymea-remoteproxy/engine.cpp",'websocketServerTunnelProxyUrl.setHost(m_configuration->webSocketServerTunnelProxyHost().toString());','websocketServerTunnelProxyUrl.setHost(m_configuration->tcpServerTunnelProxyHost().toString());')]
DEMO='''
from px import *
with Proxy() as px:
    tcp, ws = free_port(), free_port()
    conf = open(px.dir + "/p.conf").read().replace("tunnel.sock", "t2.sock").replace("mon.sock", "m2.sock")
    conf = conf.replace("host=127.0.0.1\\nport=%d" % px.ws, "host=127.0.0.2\\nport=%d" % ws, 1).replace(str(px.tcp), str(tcp))
    open(px.dir + "/q.conf", "w").write(conf)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/server/nymea-remoteproxy", "-c", px.dir + "/q.conf"], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def there(a):
        for _ in range(40):
            try: socket.create_connection(a, 1).close(); return True
            except OSError: time.sleep(0.1)
        return False
    try: got = there(("127.0.0.1", tcp)), there(("127.0.0.2", ws))
    finally: p.kill(); p.wait()
    print(got); sys.exit(0 if all(got) else 1)
'''

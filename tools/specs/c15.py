ID="busy-port-stops-others"; PROP="C28"
NEEDS="a start while another process holds one of the ports"
BREAKS="the transports behind the one that cannot listen are not started"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp",'''        interface->startServer();
    }
    setRunning(true);
''','''        if (!interface->startServer())
            break;
    }
    setRunning(true);
''')]
DEMO='''
from px import *
with Proxy() as px:
    t = free_port()
    conf = open(px.dir + "/p.conf").read().replace(str(px.tcp), str(t)).replace("tunnel.sock", "t2.sock").replace("mon.sock", "m2.sock")
    open(px.dir + "/q.conf", "w").write(conf)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/server/nymea-remoteproxy", "-c", px.dir + "/q.conf"], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = False
    for _ in range(40):
        try: socket.create_connection(("127.0.0.1", t), 1).close(); ok = True; break
        except OSError: time.sleep(0.1)
    p.kill(); p.wait(); print(ok); sys.exit(0 if ok else 1)
'''

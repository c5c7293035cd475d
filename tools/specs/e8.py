ID="long-names-cut"; PROP="C27"
NEEDS="a client whose name is longer than 30 characters"
BREAKS="the line output shows only the beginning of the name"
EDITS=[("monitor/noninteractivemonitor.cpp",'.arg(clientMap.value("name").toString(), -30);','.arg(clientMap.value("name").toString().left(30), -30);')]
DEMO='''
from px import *
with Proxy() as px:
    name = "a client whose name is not as short as others are"
    s = Conn(px); assert s.server(1)
    c = Conn(px); assert c.client(2, 1, name)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxy:" + px.root + "/_build/libnymea-remoteproxyclient", LC_ALL="C.UTF-8", HOME=px.dir)
    out = subprocess.run([px.root + "/_build/monitor/nymea-remoteproxy-monitor", "-s", px.mon, "-n", "-a"], cwd=px.dir, env=env, capture_output=True, text=True, timeout=20).stdout
    print(out); sys.exit(0 if name in out else 1)
'''

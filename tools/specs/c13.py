ID="monitor-client-traffic-swapped"; PROP="C27"
NEEDS="a server with at least two clients whose received and sent amounts differ, printed as lines"
BREAKS="the last client's received and sent amounts are exchanged in the line output"
EDITS=[("monitor/noninteractivemonitor.cpp",'''                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toLongLong()), - 9)
                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toLongLong()), - 9)
''','''                        .arg(Utils::humanReadableTraffic(clientMap.value(cc > 0 ? "txDataCount" : "rxDataCount").toLongLong()), - 9)
                        .arg(Utils::humanReadableTraffic(clientMap.value(cc > 0 ? "rxDataCount" : "txDataCount").toLongLong()), - 9)
''')]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    for i in (2, 3):
        c = Conn(px); assert c.client(i, 1); c.send(b"x" * 700); globals()["c%d" % i] = c
    time.sleep(0.5)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxy", LC_ALL="C.UTF-8", HOME=px.dir)
    o = subprocess.run([px.root + "/_build/monitor/nymea-remoteproxy-monitor", "-s", px.mon, "-n", "-a"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20).stdout
    rep = px.monitor()
    import re
    l = [x for x in o.splitlines() if "RX:" in x and "client" in x]
    print("\\n".join(l))
    def size(t): m = re.match(r"([\\d.]+) *(\\w*)", t); return float(m[1]) * (1024 if m[2].lower().startswith("k") else 1)
    bad = [x for x in l if size(x.split("RX: ")[1]) < size(x.split("TX: ")[1])]
    sys.exit(0 if len(l) == 2 and not bad else 1)
'''

ID="client-time-of-server"; PROP="C16"
NEEDS="a client that connects at least a second after its server"
BREAKS="the monitor reports the server's time of connection as the client's"
EDITS=[("libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp",'clientMap.insert("timestamp", clientConnection->transportClient()->creationTime());','clientMap.insert("timestamp", serverConnection->transportClient()->creationTime());')]
DEMO='''
from px import *
with Proxy() as px:
    s = Conn(px); assert s.server(1)
    time.sleep(2.2)
    c = Conn(px); assert c.client(2, 1)
    m = px.monitor()["tunnelProxyStatistic"]["tunnelConnections"][0]
    d = m["clientConnections"][0]["timestamp"] - m["timestamp"]
    print(d); sys.exit(0 if d >= 2 else 1)
'''

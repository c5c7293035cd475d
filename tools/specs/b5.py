ID="report-to-all-monitors"; PROP="C17"
NEEDS="two monitors connected at the same time, one of them asking for a refresh"
BREAKS="a monitor receives reports it did not ask for whenever another one refreshes"
EDITS=[("libnymea-remoteproxy/server/monitorserver.cpp","            sendMonitorData(clientConnection, Engine::instance()->buildMonitorData(printAll));\n","            updateClients(Engine::instance()->buildMonitorData(printAll));\n")]
DEMO='''
from px import *
with Proxy() as px:
    o = socket.socket(socket.AF_UNIX); o.connect(px.mon); o.settimeout(1)
    time.sleep(0.3); px.monitor()
    try: d = o.recv(100)
    except socket.timeout: d = b""
    print(d); sys.exit(1 if d else 0)
'''

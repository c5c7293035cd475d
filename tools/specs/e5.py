ID="longer-method-names"; PROP="C30"
NEEDS="a method name with something between the name space and the method"
BREAKS="names that are not listed are accepted and carried out"
EDITS=[("libnymea-remoteproxy/server/jsonrpcserver.cpp","    if (commandList.count() != 2) {","    if (commandList.count() < 2) {")]
DEMO='''
from px import *
with Proxy() as px:
    c = Conn(px)
    a = c.call("RemoteProxy.Hello")
    b = c.call("RemoteProxy.v2.Hello")
    print(a, b); sys.exit(0 if a and a["status"] == "success" and not (b and b.get("status") == "success") else 1)
'''

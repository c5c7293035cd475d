ID="other-refusals-accepted"; PROP="C19"
NEEDS="a registration that the proxy refuses for another reason than an unknown server"
BREAKS="the remote connection reports to be connected although the proxy refused the registration"
EDITS=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp",'''    if (responseParams.value("tunnelProxyError").toString() != "TunnelProxyErrorNoError") {''','''    if (responseParams.value("tunnelProxyError").toString() == "TunnelProxyErrorServerNotFound") {''')]
DEMO='''
from capp import *
import sys
f = Fake(); a = App("remote", f.url, U(1), U(2)); a.do("start")
c = f.accept(); c.hello(); r = c.line(); assert r
c.answer(r, {"tunnelProxyError": "TunnelProxyErrorAlreadyRegistered"})
l = a.next("remote", 2); print(l, a.seen); a.kill()
sys.exit(1 if l == "remote 1" else 0)
'''

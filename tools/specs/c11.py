ID="chain-hides-key"; PROP="C26"
NEEDS="a configuration with TLS that has a certificate chain and a key file that cannot be opened"
BREAKS="a missing key is no failure if a chain is configured: the proxy starts and no TLS connection works"
EDITS=[("libnymea-remoteproxy/proxyconfiguration.cpp",'''        qCWarning(dcApplication()) << "Could not open certificate key file:" << sslCertificateKeyFileName() << certKeyFile.errorString();
        return false;
''','''        qCWarning(dcApplication()) << "Could not open certificate key file:" << sslCertificateKeyFileName() << certKeyFile.errorString();
        if (sslCertificateChainFileName().isEmpty())
            return false;
''')]
DEMO='''
from px import *
with Proxy(tls=True) as px:
    conf = open(px.dir + "/p.conf").read()
    conf = conf.replace("k.pem", "none.pem").replace("certificateChain=", "certificateChain=" + px.dir + "/c.pem").replace(str(px.tcp), str(free_port())).replace(str(px.ws), str(free_port())).replace("tunnel.sock", "t2.sock").replace("mon.sock", "m2.sock")
    open(px.dir + "/q.conf", "w").write(conf)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/server/nymea-remoteproxy", "-c", px.dir + "/q.conf"], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try: r = p.wait(4)
    except subprocess.TimeoutExpired: r = None; p.kill(); p.wait()
    print(r); sys.exit(0 if r else 1)
'''

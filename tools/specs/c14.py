ID="log-overwritten"; PROP="C28"
NEEDS="a log file that exists and cannot be written"
BREAKS="a log file that cannot be opened does not end the program if it exists already"
EDITS=[("server/main.cpp",'''            qWarning() << "Error opening log file" << configuration->logFileName();
            exit(EXIT_FAILURE);
        }
    }
''','''            qWarning() << "Error opening log file" << configuration->logFileName();
            if (!fi.exists())
                exit(EXIT_FAILURE);
        }
    }
''')]
DEMO='''
from px import *
with Proxy() as px:
    os.mkdir(px.dir + "/log")
    conf = open(px.dir + "/p.conf").read().replace(str(px.tcp), str(free_port())).replace(str(px.ws), str(free_port())).replace("tunnel.sock", "t2.sock").replace("mon.sock", "m2.sock").replace("writeLogs=false", "writeLogs=true")
    open(px.dir + "/q.conf", "w").write(conf)
    env = dict(os.environ, LD_LIBRARY_PATH=px.root + "/_build/libnymea-remoteproxy", HOME=px.dir)
    p = subprocess.Popen([px.root + "/_build/server/nymea-remoteproxy", "-c", px.dir + "/q.conf"], cwd=px.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try: r = p.wait(4)
    except subprocess.TimeoutExpired: r = None; p.kill(); p.wait()
    print(r); sys.exit(0 if r else 1)
'''

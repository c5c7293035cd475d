prop("C13", "Idle connections end when they should and only then",
     "A connection that does not register is closed once inactiveTimeout has passed since it was opened, whatever it sends; a registered server that sends nothing for 60 s is closed (what is sent to it does not count) and its clients with it; a registered client is never closed for being idle. Also a peer that does not read cannot keep a connection beyond these limits.",
     ["schedules", "histories"], "all traffic patterns of a catalogue around the limits, on every transport, with virtual time moved from timer to timer; peers that stall",
     "needs minutes to hours of real time per case and the exact instants around each limit; tests only wait for one unregistered connection",
     [TP + "tunnelproxyclient.cpp", TP + "tunnelproxyserver.cpp", SV + "sslserver.cpp"], [("inactivity timer", TP + "tunnelproxyclient.cpp: TunnelProxyClient, activateClient"), ("aborting", SV + "transportinterface.h: abortClientConnection")],
     ["when connections are closed"], "exhaustive enumeration of timed histories on the real proxy under virtual time", REAL)
prop("C14", "An encrypted port serves nobody in the clear",
     "With TLS enabled nothing sent in the clear to the TCP or web socket port has any effect or is answered in the clear, and the connection ends. A handshake that is not completed ends within its limit and leaves the other connections alone; however the handshake's and the data's bytes are cut on the way, a proper peer is served as without TLS.",
     ["inputs", "schedules"], "every first byte, a catalogue of clear-text openings in pieces of several sizes, handshakes cut off after every number of bytes, relays that deliver byte by byte or coalesced, many failing connections before a good one",
     "tests only use well-behaved TLS peers",
     [SV + "sslserver.cpp", SV + "tcpsocketserver.cpp", SV + "websocketserver.cpp"], [("no connection before it is encrypted", SV + "sslserver.cpp: incomingConnection"), ("encrypted reads", SV + "tcpsocketserver.cpp: onDataAvailable")],
     ["bytes in the clear from the port", "monitor report", "traffic of bystanders"], "exhaustive enumeration of openings and cuts on the real proxy", REAL)
prop("C15", "All transports behave the same",
     "Tunnels behave identically over every combination of transports of server and client: the same conversation gives the same answers, notifications, data and closed connections over TCP, TLS, unix socket and (for clients) web socket, whatever the pace.",
     ["inputs", "schedules", "histories"], "all combinations of transports; sizes around all framing limits of the transports; a catalogue of ends of connections; model histories replayed on mixed transports",
     "the tests cover few combinations and only small payloads",
     [SV + "tcpsocketserver.cpp", SV + "unixsocketserver.cpp", SV + "websocketserver.cpp", SV + "transportinterface.h"], [("transport interface", SV + "transportinterface.h")],
     ["everything received on the harness's connections"], "explicit-state model + lockstep replay on every combination; exhaustive enumeration of sizes and ends", MODEL)
prop("C16", "The monitor reports what is there",
     "The monitor's report equals the set of connections that exist at that moment: counts in total, per role and per transport, each server with exactly its clients, their names, UUIDs, peer addresses, times of connection and transferred bytes in the right direction. Servers without clients are listed only with printAll.",
     ["histories", "inputs"], "all model histories of up to five connections with the complete report compared after every step; traffic amounts in both directions",
     "tests look at one report of a fixed situation",
     [TP + "tunnelproxyserver.cpp", SV + "monitorserver.cpp", S + "engine.cpp"], [("statistics", TP + "tunnelproxyserver.cpp: currentStatistics"), ("report", S + "engine.cpp: buildMonitorData")],
     ["JSON document on the monitor socket"], "explicit-state model + lockstep replay", MODEL)
prop("C17", "Monitors do not disturb the proxy or each other",
     "Each refresh request of a monitor is answered by one report; anything else closes that monitor's connection only. Whatever monitors send, and whether they read, all other monitors and every tunnel are served as without them.",
     ["inputs", "schedules"], "all sequences of messages of a catalogue up to the bound, each cut everywhere; merges with tunnel traffic; monitors that do not read",
     "no test connects more than one monitor or sends anything but a valid request",
     [SV + "monitorserver.cpp"], [("monitor requests", SV + "monitorserver.cpp: onMonitorReadyRead, processRequest")],
     ["answers to monitors", "traffic of a bystander tunnel"], "exhaustive enumeration of message sequences on the real proxy", REAL)
prop("C18", "Start, stop and restart leave what was asked for, and nothing behind",
     "After any sequence of start, stop and destroy calls the proxy is running if and only if the last of them was start: exactly the ports and sockets of that start's configuration accept connections and serve tunnels, earlier connections are closed, and running() and runningChanged say so. Connections that are gone leave no objects, descriptors, timers or memory behind.",
     ["histories", "schedules"], "all sequences of starts with three configurations, stops, destroys, event loop turns, visits up to the bound; every kind of visit over every transport, repeated; model histories that end with everybody gone",
     "tests start and stop the engine in one order and never look at what remains",
     [S + "engine.cpp", SV + "tcpsocketserver.cpp", SV + "unixsocketserver.cpp", SV + "websocketserver.cpp", SV + "monitorserver.cpp", TP + "tunnelproxyserver.cpp"], [("start and stop", S + "engine.cpp: start, stop, clean, setRunning"), ("release of connections", TP + "tunnelproxyserver.cpp: onClientDisconnected")],
     ["running(), runningChanged", "which ports accept", "live objects, descriptors, timers, allocated bytes"], "exhaustive enumeration of call sequences and visits on the real engine", REAL)

CT = CL + "tunnelproxy/"
prop("C19", "The client library's remote connection is up exactly while the tunnel is",
     "A TunnelProxyRemoteConnection becomes remoteConnected if and only if the proxy accepted its Hello and its RegisterClient (with the client's and server's UUIDs and the name given), and is so until the connection ends. While it is, dataReady delivers every byte from the remote server in order, unchanged, once, whatever the packets it arrives in - including data right behind the registration response - and sendData sends exactly the given bytes; while it is not, sendData returns false and sends nothing. A refused or broken attempt ends disconnected; remoteConnectedChanged alternates.",
     ["inputs", "schedules", "histories"], "all cuts of the proxy's stream, all byte values and sizes around the framing limits, all dialogues (what the proxy says, what the application calls) up to depth 6/8 over TCP and 5/6 over web socket",
     "the library's tests only connect it to the real proxy, one history, whole packets",
     [CT + "tunnelproxyremoteconnection.cpp", CL + "tcpsocketconnection.cpp", CL + "websocketconnection.cpp"],
     [("registration", CT + "tunnelproxyremoteconnection.cpp: onConnectionChanged, onHelloFinished, onClientRegistrationFinished"), ("data", CT + "tunnelproxyremoteconnection.cpp: onConnectionDataAvailable, sendData")],
     ["signals and getters of the library", "bytes received by a proxy played by the harness"], "explicit-state exploration of dialogues and exhaustive enumeration of cuts on the real library against a scripted proxy", MODEL)
prop("C20", "The client library's server sees each client once, with its own data",
     "A registered TunnelProxySocketServer announces each client by one clientConnected with the name, UUID, peer address and tunnel address the proxy gave, and its end by one clientDisconnected (and disconnected of the socket, which then deletes itself) - when the proxy says so or when the connection to the proxy ends. In between every frame addressed to it, and no other, is delivered whole and in order by that socket's dataReceived; writeData sends one frame with its address and exactly the data, disconnectSocket one DisconnectClient request. However the proxy's bytes are cut into packets or joined, unknown addresses and damaged frames are ignored without harm to the others.",
     ["inputs", "schedules", "histories"], "streams of three clients cut at every position, all dialogues of the proxy's and the application's steps up to depth 4/6",
     "the library's tests have at most a few clients, one history, whole packets",
     [CT + "tunnelproxysocketserver.cpp", CT + "tunnelproxysocket.cpp", "common/slipdataprocessor.cpp"],
     [("clients", CT + "tunnelproxysocketserver.cpp: onTunnelProxyClientConnected, onTunnelProxyClientDisconnected"), ("frames", CT + "tunnelproxysocketserver.cpp: onConnectionDataAvailable"), ("sockets", CT + "tunnelproxysocket.cpp")],
     ["signals and getters of the library", "requests and frames received by a proxy played by the harness"], "explicit-state exploration of dialogues and exhaustive enumeration of cuts on the real library against a scripted proxy", MODEL)
prop("C21", "Replies of the proxy reach the call they answer",
     "Every call of the client library's JSON-RPC client is answered by exactly the response with its id, once, whatever the order of the responses, notifications in between and the packets they arrive in; notifications are reported once each, in order, and never as a reply; responses to nobody, unknown notifications and unreadable messages have no effect on the others.",
     ["inputs", "schedules", "histories"], "all orders of calls, responses and notifications up to the bound; messages with nested objects, braces and escapes in texts cut at every (pair of) position(s)",
     "tests have one call outstanding at a time and whole packets",
     [CL + "proxyjsonrpcclient.cpp", CL + "jsonreply.cpp"], [("framing and dispatch", CL + "proxyjsonrpcclient.cpp: processData"), ("ids", CL + "jsonreply.cpp")],
     ["JsonReply::finished and response()", "notification signals"], "explicit-state exploration of message histories and exhaustive enumeration of cuts on the real class", MODEL)
prop("C22", "A started library server stays registered, a stopped one stays away",
     "From startServer until stopServer the client library's server tries to register again - within some seconds, without end - however the connection fails: refused, lost at any stage, registration refused, Hello refused; as soon as the proxy accepts it is running. It keeps its registration alive: the proxy hears from it within every 60 s whether tunnel data flows to it, from it, both or not at all. After stopServer or destruction no connection is left and none is tried.",
     ["schedules", "histories"], "all sequences of three/four fates of attempts out of thirteen; stop and destruction at every stage; ten minutes of every kind of traffic at periods of 1 to 61 s, against a scripted and the real proxy, in virtual time",
     "needs minutes of real time per history; no test breaks the connection to the proxy",
     [CT + "tunnelproxysocketserver.cpp"], [("reconnect timer", CT + "tunnelproxysocketserver.cpp: setState, setupTimers"), ("keep alive", CT + "tunnelproxysocketserver.cpp: setupTimers")],
     ["running(), runningChanged", "connections and requests received by the proxy"], "exhaustive enumeration of timed histories on the real library under virtual time", REAL)
prop("C23", "The client library may be called from anywhere",
     "Every method of the client library's remote connection, socket server and tunnel sockets may be called in every state and from within every signal, deleteLater included: nothing crashes or dangles, and afterwards stop leaves no connection open and a start or connect works as on a new object.",
     ["schedules", "histories"], "every call from every signal of a story with several clients, lost, refused and renewed connections; pairs of calls from signals; pairs of calls at every stage (address sanitizer on)",
     "the number of signal/call pairs; tests call methods from the outside in the usual states",
     [CT + "tunnelproxysocketserver.cpp", CT + "tunnelproxyremoteconnection.cpp", CT + "tunnelproxysocket.cpp"], [("cleaning up", CT + "tunnelproxysocketserver.cpp: cleanUp"), ("cleaning up", CT + "tunnelproxyremoteconnection.cpp: cleanUp")],
     ["crashes, sanitizer reports", "signals and getters", "connections at the proxy"], "exhaustive enumeration of call positions and pairs on the real library", REAL)
prop("C24", "Applications reach each other through the proxy",
     "With both ends using the client library: a remote connection to a server's UUID becomes connected exactly while that server is registered at the proxy, the server's application sees it as one tunnel socket with its UUID and name, and every byte either application sends arrives at the other end of that tunnel, once, in order and nowhere else. When either end disconnects, stops or dies both ends learn of it, the other tunnels go on, and the same server and clients can connect again; of two servers with one UUID only one runs and the other takes over when it leaves.",
     ["histories", "schedules"], "all sequences of starts, stops, connects, disconnects and data of two servers and two clients up to the bound, alone and in bursts, over TCP, web socket and TLS",
     "every test has one server with one client in one order; most defects of the pair need an overlap of ends and starts",
     [CT + "tunnelproxysocketserver.cpp", CT + "tunnelproxyremoteconnection.cpp", TP + "tunnelproxyserver.cpp"],
     [("proxy", TP + "tunnelproxyserver.cpp"), ("server side", CT + "tunnelproxysocketserver.cpp"), ("client side", CT + "tunnelproxyremoteconnection.cpp")],
     ["signals and getters of both applications' library objects", "the bytes each application received"], "exhaustive enumeration of operation sequences on the real library and proxy together", REAL)
prop("C25", "The frame codec loses and invents nothing",
     "For every byte string decoding its encoding gives it back; an encoded string contains the frame end byte only at its end; a frame built for any address and data parses to that address and data. Decoding anything that is not an encoding never crashes or reads out of bounds and yields either the bytes it stands for or nothing.",
     ["inputs"], "all strings up to two bytes, all strings over the special and neighbouring bytes up to length 6/8, all 65536 addresses, sizes through 600 bytes and to 1 MB (address sanitizer on)",
     "the tests encode a handful of texts",
     ["common/slipdataprocessor.cpp"], [("encode", "common/slipdataprocessor.cpp: serializeData, buildFrame"), ("decode", "common/slipdataprocessor.cpp: deserializeData, parseFrame")],
     ["results of the codec, compared with an independent one"], "exhaustive enumeration of inputs of the real codec within bounds", REAL)
prop("C26", "The configuration file means what it says",
     "Each value of the configuration file takes effect as its own setting and no other, missing ones have their documented default, and loading a second file leaves nothing of the first. A missing file, or with TLS enabled a missing or unusable certificate, key or chain, is refused. The proxy started with it listens exactly at the configured ports and sockets, with or without TLS as configured, gives the configured name and applies the configured limits.",
     ["inputs", "histories"], "every subset of the keys, all pairs of values of every two keys, all pairs of files, all combinations of good and bad certificate files, 128 configurations of a running proxy",
     "tests load one file and read back some of it",
     [S + "proxyconfiguration.cpp", S + "engine.cpp"], [("loading", S + "proxyconfiguration.cpp: loadConfiguration"), ("use", S + "engine.cpp: start")],
     ["getters of ProxyConfiguration", "ports, sockets, names and times of the running proxy"], "exhaustive enumeration of configurations on the real code", REAL)
prop("C27", "The monitor program shows the report it was given",
     "The monitor program shows the proxy's latest report completely and unchanged - each server and its clients with name, UUID, peer address, connection time and traffic in the right direction - in its window, as lines and as JSON, whatever the packets the report arrives in and however many follow each other. The forms that print once print exactly one report and end successfully, the window keeps asking for new ones at any size of the terminal and ends, giving the terminal back, on Escape or when the proxy goes. Its options choose the form; unusable ones end it with a failure.",
     ["inputs", "schedules"], "reports of all shapes up to three servers with three clients, texts with braces and escapes, amounts up to beyond 4 GB, cut at every (pair of) position(s); all three forms of the program; all combinations of options; keys, terminal sizes and ends; the real proxy with every set of connections of a catalogue",
     "the monitor program has no tests",
     ["monitor/main.cpp", "monitor/monitor.cpp", "monitor/monitorclient.cpp", "monitor/noninteractivemonitor.cpp", "monitor/terminalwindow.cpp"], [("reading reports", "monitor/monitorclient.cpp"), ("lines and JSON", "monitor/noninteractivemonitor.cpp"), ("window", "monitor/terminalwindow.cpp: refreshWindow")],
     ["standard output, exit code", "the drawn screen (a recording ncurses)", "what it sends to the proxy"], "exhaustive enumeration of reports and cuts on the real program code", REAL)
prop("C28", "The server program ends in order and starts after anything",
     "Once the server program handles them, SIGTERM, SIGINT, SIGQUIT or SIGHUP, one or two, at any moment - within its start, its work or its end - make it close all connections, remove its socket files and end with code 0, and nothing else makes it end. Killed at any moment it leaves nothing that keeps the next start from serving everything. Whatever is in the way of a socket or port, it serves the ways that are free. A configuration or log file that cannot be used ends it with a failure before it serves anybody.",
     ["crash_points", "schedules", "histories"], "signals at every allocation and system call of a story, pairs of signals, crashes at every socket and file call and once more within the next start, all combinations of leftovers and busy ports, all combinations of bad configurations and logs",
     "the program itself has no tests; a signal hits one instruction out of millions",
     ["server/main.cpp", "server/remoteproxyserverapplication.cpp", S + "engine.cpp", SV + "unixsocketserver.cpp", SV + "monitorserver.cpp"],
     [("signals", "server/remoteproxyserverapplication.cpp: onUnixSignal"), ("start", "server/main.cpp: main"), ("leftover sockets", SV + "unixsocketserver.cpp: startServer"), ("leftover sockets", SV + "monitorserver.cpp: startServer")],
     ["exit code", "connections, socket files, log file", "what further connections are served"], "exhaustive enumeration of signal and crash points of the real program under a controlled event loop", REAL)
prop("C29", "The tunnel client program does what its options say",
     "The tunnel client program registers as server or client with the name and UUIDs of its options (own ones otherwise), and comes back as a server when the proxy does. It shows clients that come and, as a client, what the server sends. With the random option a server sends each client exactly what that client sent and a client sends data every second; without it neither sends anything. TLS certificates that are not trusted are accepted only with the option for it. Unusable options end it with a failure before it connects.",
     ["histories", "inputs"], "all sequences of up to 4/6 joins, data, ends, disconnects, proxy restarts and time, in both roles, with and without random data and TLS; all combinations of options and bad values",
     "the program has no tests",
     ["tunnelclient/main.cpp", "tunnelclient/serverconnection.cpp", "tunnelclient/clientconnection.cpp"], [("options", "tunnelclient/main.cpp: main"), ("server", "tunnelclient/serverconnection.cpp"), ("client", "tunnelclient/clientconnection.cpp")],
     ["what the proxy reports about it", "bytes its peers receive", "standard output, exit code"], "exhaustive enumeration of operation sequences on the real program and proxy together", REAL)
prop("C30", "The proxy's API is what it says it is",
     "The proxy's Introspect reply lists, on every transport and at any time, exactly the methods that can be called, with their parameters, results and types, and the notifications servers get. A call of a listed method with the listed parameters is carried out and its result has exactly the listed fields of the listed types; a call that lacks a parameter, has one more, or has an object, an array or (for a UUID) a number in place of the listed type is refused, ends the connection and has no effect. Every other method name is refused; notifications have exactly the listed parameters.",
     ["inputs"], "every method with every combination of seven kinds of value for its parameters, with and without one more, by new connections and by servers on every transport; every other name of a catalogue in two and more name spaces, and 25 names that resemble each listed one",
     "the tests call each method with one good and a few bad sets of parameters and hardly look at the description",
     ["libnymea-remoteproxy/jsonrpc/jsonhandler.cpp", "libnymea-remoteproxy/jsonrpc/jsontypes.cpp", "libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp", SV + "jsonrpcserver.cpp"],
     [("description", SV + "jsonrpcserver.cpp: Introspect"), ("validation", "libnymea-remoteproxy/jsonrpc/jsontypes.cpp: validateMap"), ("methods", "libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp")],
     ["responses and notifications compared with the description"], "exhaustive enumeration of calls on the real proxy", REAL)
prop("C31", "The client library trusts only the certificates it should",
     "With an ssl:// or wss:// URL the client library connects, and says anything at all, only to a proxy whose certificate is valid now, for the host of the URL and by a trusted authority - or whose every error the application has accepted for this very attempt. Otherwise the application is asked about the errors with each attempt, is told of the failure, and nothing of the protocol is sent; never is anything sent in the clear. A trusted certificate works without asking.",
     ["inputs", "histories"], "12 certificates with every kind of flaw, by address and name, client and server, TCP and web socket, eight ways for the application to answer; several attempts and every sequence of three certificates; impostors with and without TLS that speak first",
     "the tests have one certificate, not trusted, and accept everything",
     ["libnymea-remoteproxyclient/tcpsocketconnection.cpp", "libnymea-remoteproxyclient/websocketconnection.cpp", CT + "tunnelproxysocketserver.cpp", CT + "tunnelproxyremoteconnection.cpp"],
     [("TCP", "libnymea-remoteproxyclient/tcpsocketconnection.cpp: connectServer, ignoreSslErrors"), ("web socket", "libnymea-remoteproxyclient/websocketconnection.cpp: connectServer, ignoreSslErrors"), ("signals", CT + "tunnelproxysocketserver.cpp: ignoreSslErrors")],
     ["signals and getters of the library", "what the proxy has registered", "what an impostor hears"], "exhaustive enumeration of certificates, answers and histories on the real library", REAL)
prop("C32", "A shortage passes",
     "While the system gives the proxy no further connections - no free file descriptors or memory, accept() failing for whatever reason, once or for long - every connection it has is served as before. Within some seconds after the shortage has passed every port and socket (TCP, web socket, tunnel and monitor socket) accepts connections and serves them again, without a restart; connections that came in meanwhile are served or closed.",
     ["fault_sequences", "histories"], "every error of accept() for one to three calls or for periods up to a minute, with one to three connections over each way, all sequences of up to four steps of shortage, its end, connections, time, restart; a real limit of descriptors",
     "the tests never run out of anything",
     [SV + "tcpsocketserver.cpp", SV + "websocketserver.cpp", SV + "unixsocketserver.cpp", SV + "monitorserver.cpp"],
     [("TCP", SV + "tcpsocketserver.cpp: SslServer"), ("web socket", SV + "websocketserver.cpp: onAcceptError"), ("unix socket", SV + "unixsocketserver.cpp: startServer"), ("monitor socket", SV + "monitorserver.cpp: startServer")],
     ["tunnel data and monitor reports during the shortage", "what new connections get afterwards"], "exhaustive enumeration of faults and fault histories on the real proxy", REAL)

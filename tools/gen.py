#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it; both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "libnymea-remoteproxy/"
TP = S + "tunnelproxy/"
SV = S + "server/"
CL = "libnymea-remoteproxyclient/"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)], observe, technique, note
P = []


def prop(ident, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append(dict(ident=ident, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


REAL = "real code, every execution of the stated bounded space; sockets, timers and the event loop are under the explorer's control. Trusts Qt below the socket API and the harness's own codecs"
MODEL = "explicit-state reference model explored exhaustively; every transition replayed on the real code in lockstep, plus stateless exploration of the real code"

prop("C01", "Client bytes reach their server unchanged",
     "Every byte a registered client sends is delivered to the server it registered with, under this client's tunnel address, exactly once, in order and unmodified, whatever the bytes are and however they are cut into reads. Data sent right before the client goes away still arrives before the server is told that it is gone.",
     ["inputs", "schedules", "histories"], "all payload contents (in particular all combinations of the framing bytes), all segmentations, all interleavings with other clients, all transports",
     "the tests push a handful of fixed payloads through an otherwise idle proxy; nothing there contains framing bytes at odd places, cut registrations, stalled readers or concurrent clients",
     [TP + "tunnelproxyserver.cpp", TP + "tunnelproxyclient.cpp", "common/slipdataprocessor.cpp", SV + "tcpsocketserver.cpp", SV + "unixsocketserver.cpp", SV + "websocketserver.cpp"],
     [("client data is wrapped into a SLIP frame with the client's address", TP + "tunnelproxyserver.cpp: onClientDataAvailable"), ("SLIP escaping", "common/slipdataprocessor.cpp: serializeData")],
     ["bytes received on the server's connection"], "bounded exhaustive exploration of the real proxy + model in lockstep", REAL)
prop("C02", "Server bytes reach exactly the addressed client unchanged",
     "Every frame a registered server sends to the tunnel address of one of its clients is delivered to that client as exactly the frame's payload, once and in order, however the frame stream is cut into reads. The client sees nothing else than such payload after its registration was answered.",
     ["inputs", "schedules", "histories"], "all payloads, all cuts of the frame stream, all addresses including those made of framing bytes, all interleavings",
     "tests send whole frames one at a time; decoding state carried over between reads and escaped addresses is only reached by specific cuts and by having hundreds of clients",
     [TP + "tunnelproxyserver.cpp", TP + "tunnelproxyclient.cpp", "common/slipdataprocessor.cpp"],
     [("frame reassembly", TP + "tunnelproxyclient.cpp: processData"), ("dispatch by address", TP + "tunnelproxyserver.cpp: onClientDataAvailable"), ("SLIP decoding", "common/slipdataprocessor.cpp: deserializeData")],
     ["bytes received on the client's connection"], "bounded exhaustive exploration of the real proxy + model in lockstep", REAL)
prop("C03", "Tunnels are isolated from each other",
     "Whatever a connection sends can only ever reach its own tunnel partner: no other server, client or unregistered connection receives a byte of it. A frame for an address that is not (or no longer) assigned to one of the sending server's clients is delivered to nobody.",
     ["histories", "schedules", "inputs"], "all histories of registrations, data, disconnects and reconnects of several servers and clients, all addresses of the 16 bit space as target, all interleavings",
     "tests use one server and one client at a time; leaks show with equal addresses at two servers, stale addresses and reuse after disconnects",
     [TP + "tunnelproxyserver.cpp", TP + "tunnelproxyserverconnection.cpp", TP + "tunnelproxyclientconnection.cpp"],
     [("address lookup per server connection", TP + "tunnelproxyserverconnection.cpp: getClientConnection")],
     ["everything received by every connection"], "explicit-state model + lockstep replay; interleaving exploration", MODEL)
prop("C04", "Tunnel addresses are unique and never reserved",
     "At every moment the clients of one server have pairwise different tunnel addresses, and none of them is 0x0000 or 0xFFFF. This holds however many clients have come and gone before, and a client is served as long as an address is free.",
     ["histories", "schedules"], "all connect/disconnect histories, including those that run through the complete 16 bit space with any addresses still held",
     "needs tens of thousands of registrations to wrap around; tests register a few",
     [TP + "tunnelproxyserverconnection.cpp"], [("address allocation", TP + "tunnelproxyserverconnection.cpp: getFreeAddress")],
     ["socketAddress of the connect notifications", "where data of each address arrives"], "model + lockstep; exhaustive walk of the address space; interleavings", MODEL)
prop("C05", "One identity, one connection, one role",
     "At any time at most one connection is registered under a UUID, and a connection has at most one role for its whole life; a second registration is refused and the refused connection closed while the first one is not affected. As soon as a registered connection is gone its UUID can be registered again, in either role.",
     ["histories", "schedules"], "all orders of registrations, refusals, disconnects and re-registrations of up to four connections under up to three identities; simultaneous registrations in all interleavings",
     "tests check single refusals in a fixed order and never what is left behind by them",
     [TP + "tunnelproxyserver.cpp"], [("registration checks", TP + "tunnelproxyserver.cpp: registerServer, registerClient"), ("clean-up on disconnect", TP + "tunnelproxyserver.cpp: onClientDisconnected")],
     ["responses", "closed connections", "monitor report"], "explicit-state model + lockstep replay; interleaving exploration", MODEL)
prop("C06", "Servers learn exactly once of each client coming and going",
     "For every client that is accepted the server receives exactly one connect notification carrying this client's name, UUID, peer address and tunnel address, before any of its data, and exactly one disconnect notification for that address when the client is gone for whatever reason. Refused clients cause no notification.",
     ["histories", "schedules"], "all histories of clients and servers coming and going, disconnect requests included, and all interleavings of simultaneous departures",
     "double and missing notifications come from departures that coincide (client closes while the server disconnects it, server goes at the same time); tests do one thing at a time",
     [TP + "tunnelproxyserver.cpp"], [("connect notification", TP + "tunnelproxyserver.cpp: registerClient"), ("disconnect notification", TP + "tunnelproxyserver.cpp: onClientDisconnected")],
     ["notifications on the server's connection"], "explicit-state model + lockstep replay; interleaving exploration", MODEL)
prop("C07", "Loss and disconnection hit exactly the right connections",
     "When a server's connection is gone all its clients, and nobody else, are disconnected. A server can disconnect exactly its own clients by their current address; bytes sent to the client before that request still arrive, and every other request to disconnect is refused without effect.",
     ["histories", "schedules", "inputs"], "all histories and interleavings of departures, disconnect requests for every kind of address value, and data in flight",
     "tests disconnect one client by its valid address; wrong, stale, foreign and out-of-range addresses and data in flight are not reached",
     [TP + "tunnelproxyserver.cpp", TP + "tunnelproxyhandler.cpp", SV + "tcpsocketserver.cpp"], [("disconnect request", TP + "tunnelproxyserver.cpp: disconnectClient"), ("server loss", TP + "tunnelproxyserver.cpp: onClientDisconnected")],
     ["which connections are closed", "bytes received before the close"], "explicit-state model + lockstep replay; interleaving exploration", MODEL)
prop("C08", "Each request is answered once, in order, under its own id",
     "Every request on a connection is answered by exactly one response that carries its id, in the order of the requests, with the result or the documented error for that request; unasked responses never occur. This holds for pipelined requests and whatever other connections do.",
     ["inputs", "histories", "schedules"], "all sequences of requests up to the bound, sent in one write, back to back or one by one, all ids, on new and registered connections of every transport",
     "tests send one request and wait; pipelining, mixed results and id edge values are not sampled",
     [SV + "jsonrpcserver.cpp", TP + "tunnelproxyhandler.cpp", S + "jsonrpc/"], [("dispatch and answer", SV + "jsonrpcserver.cpp: processDataPacket")],
     ["responses on the requesting connection"], "exhaustive enumeration of request sequences on the real proxy; interleaving exploration", REAL)
prop("C09", "Malformed input harms only its sender",
     "Whatever a connection sends in place of a valid request, the proxy keeps running, the connection gets an error response and is closed, and no other connection or tunnel is affected. Nothing of a rejected request takes effect.",
     ["inputs"], "a structured catalogue of malformed requests (syntax, types, missing and surplus fields, names of non-callable members), all one-byte changes of valid requests, from new and registered connections",
     "tests contain about a dozen malformed requests; the space of type confusions and mutations is not covered and bystanders are not observed",
     [SV + "jsonrpcserver.cpp", S + "jsonrpc/jsonhandler.cpp", S + "jsonrpc/jsontypes.cpp"], [("validation chain", SV + "jsonrpcserver.cpp: processDataPacket"), ("parameter validation", S + "jsonrpc/jsonhandler.cpp: validateParams")],
     ["answers to the offender", "traffic of a bystander tunnel", "monitor report"], "exhaustive enumeration of mutations on the real proxy", REAL)
prop("C10", "Segmentation of control traffic does not matter",
     "Requests are understood identically however the byte stream is cut into reads, whatever text they contain. The bytes after the last one of a registration belong to the tunnel, none before.",
     ["inputs", "schedules"], "every cut, every pair of cuts, and byte-by-byte delivery of control conversations containing braces, quotes, escapes and line breaks in their texts",
     "tests cut a few messages at one chosen place",
     [TP + "tunnelproxyclient.cpp"], [("request reassembly", TP + "tunnelproxyclient.cpp: processData")],
     ["responses compared with those of the uncut conversation"], "exhaustive enumeration of segmentations on the real proxy", REAL)
prop("C11", "Unfinished requests are bounded",
     "A connection that is not registered and keeps sending an unfinished request is closed once more than 10 KiB of it have accumulated, and not before. Requests below that bound and any number of small ones are served.",
     ["inputs", "schedules"], "chunk sizes from 1 byte to 100 kB, request sizes around the bound, any number of requests per connection",
     "the tests try one oversized message",
     [SV + "jsonrpcserver.cpp"], [("buffer bound", SV + "jsonrpcserver.cpp: processData")],
     ["when the connection is closed"], "exhaustive enumeration around the bound on the real proxy", REAL)
prop("C12", "A damaged frame is dropped alone",
     "A frame with a broken escape sequence from a server is dropped as a whole: no part of it is delivered, and the frames before and after it are handled as if it had not been there. Empty frames are ignored.",
     ["inputs"], "all byte strings over the framing bytes, the address bytes and one other byte up to the bound between good frames, also cut at every position; single-byte damage everywhere in a frame",
     "tests cover one broken frame on its own; what follows it, possibly in another read, is not looked at",
     [TP + "tunnelproxyclient.cpp", "common/slipdataprocessor.cpp"], [("frame reassembly", TP + "tunnelproxyclient.cpp: processData"), ("escape checks", "common/slipdataprocessor.cpp: deserializeData")],
     ["payload received by the clients"], "exhaustive enumeration of byte strings on the real proxy", REAL)

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["ident"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["ident"]
m = {"version": 1, "setup_cmd": "python3 build.py .build",
     "checks": [{"property": p["ident"], "quick_cmd": "python3 check.py " + p["ident"], "thorough_cmd": "python3 check.py %s --thorough" % p["ident"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
     "not_applicable": []}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties")

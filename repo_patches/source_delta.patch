From 459a198a0971fb2bf66509a4fdd599b8af96c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 01/30] fix: hand the decoded SLIP frame on, and start a new
 one after a damaged frame

The proxy passed the still escaped bytes of a server's frame to the client, so
0xC0 and 0xDB in payload or address were altered. A frame that could not be
decoded stayed in the buffer and spoiled every frame after it.
---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..f06fbde 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -83,9 +83,11 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
-                    m_dataBuffer.clear();
+                    packets.append(frame);
                 }
+
+                // The frame is complete, the next byte belongs to a new one
+                m_dataBuffer.clear();
             } else {
                 m_dataBuffer.append(data.at(i));
             }
-- 
2.43.0


From 1349368aee1f9137bfe72a00913d310c5bf76ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 02/30] fix: do not truncate the address in DisconnectClient to
 another client's address

Address 65537 disconnected the client with the address 1.
---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..540b5fe 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,10 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+
+    // Do not truncate addresses which are out of range to the address of an other client. The address 0x0000 is never assigned to a client.
+    qlonglong requestedAddress = params.value("socketAddress").toLongLong();
+    quint16 socketAddress = (requestedAddress > 0x0000 && requestedAddress < 0xFFFF) ? static_cast<quint16>(requestedAddress) : 0x0000;
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
-- 
2.43.0


From c251bcb7f6bdbc8b2570db40d057dcbfdf4b8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 03/30] fix: search the whole range for a free tunnel address

With 100 or more consecutive addresses in use, the address of a connected
client (or the reserved 0x0000 / 0xFFFF) was handed out a second time.
---
 .../tunnelproxy/tunnelproxyserverconnection.cpp                 | 2 +-
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h  | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..6add55f 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -86,7 +86,7 @@ quint16 TunnelProxyServerConnection::getFreeAddress()
 {
     m_currentAddressCounter += 1;
     quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
+    for (int i = 0; i <= 0xFFFF; i++) {
         if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
             address++;
         } else {
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
index 17f62cc..17e9c54 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
@@ -59,7 +59,6 @@ private:
     TransportClient *m_transportClient = nullptr;
     QUuid m_serverUuid;
     QString m_serverName;
-    quint16 m_connectionLimit = 100;
 
     quint16 m_currentAddressCounter = 0;
 
-- 
2.43.0


From 8af9af8576a7541a2dcc705790e70767e15d3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:37 +0000
Subject: [PATCH 04/30] fix: delete the sockets of disconnected unix domain
 socket clients

They were kept until the server stopped, so memory grew with every connection.
---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7eb959a..d452382 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -139,6 +139,7 @@ void UnixSocketServer::onClientConnected()
         qCDebug(dcUnixSocketServer()) << "Client disconnected:" << clientId.toString();
         if (m_clientList.take(clientId)) {
             emit clientDisconnected(clientId);
+            client->deleteLater();
         }
     });
     connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
-- 
2.43.0


From 48179a3eb3e707ed37dbc1649d99ff7ad22f1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:15 +0000
Subject: [PATCH 05/30] fix: drop SLIP frames ending within an escape sequence

---
 common/slipdataprocessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/slipdataprocessor.cpp b/common/slipdataprocessor.cpp
index a2ab18a..352a17f 100644
--- a/common/slipdataprocessor.cpp
+++ b/common/slipdataprocessor.cpp
@@ -62,6 +62,11 @@ QByteArray SlipDataProcessor::deserializeData(const QByteArray &data)
         }
     }
 
+    if (escaped) {
+        qWarning() << "Error while deserializing data. The data ends within an escape sequence.";
+        return QByteArray();
+    }
+
     return deserializedData;
 }
 
-- 
2.43.0


From a0a5607a722f6c602f84b155e4a01055d8c8f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:15 +0000
Subject: [PATCH 06/30] fix: a request fragment ending with a closing brace is
 not a complete request

---
 .../server/transportinterface.h               |  4 ++
 libnymea-remoteproxy/server/websocketserver.h |  2 +
 .../tunnelproxy/tunnelproxyclient.cpp         | 47 ++++++++++++++++++-
 .../tunnelproxy/tunnelproxyclient.h           |  8 ++++
 .../tunnelproxy/tunnelproxyserver.cpp         | 10 ++--
 5 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxy/server/transportinterface.h b/libnymea-remoteproxy/server/transportinterface.h
index d024d99..ebeb370 100644
--- a/libnymea-remoteproxy/server/transportinterface.h
+++ b/libnymea-remoteproxy/server/transportinterface.h
@@ -48,6 +48,10 @@ public:
 
     virtual uint connectionsCount() const = 0;
 
+    // True if the transport delivers complete messages, false if it delivers a stream of bytes
+    // which can be fragmented anywhere.
+    virtual bool messageBased() const { return false; }
+
     QUrl serverUrl() const;
     void setServerUrl(const QUrl &serverUrl);
 
diff --git a/libnymea-remoteproxy/server/websocketserver.h b/libnymea-remoteproxy/server/websocketserver.h
index 96dfd70..cbd663b 100644
--- a/libnymea-remoteproxy/server/websocketserver.h
+++ b/libnymea-remoteproxy/server/websocketserver.h
@@ -55,6 +55,8 @@ public:
 
     uint connectionsCount() const override;
 
+    bool messageBased() const override { return true; }
+
 private:
     QWebSocketServer *m_server = nullptr;
     bool m_sslEnabled;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index f06fbde..f3cfa67 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -101,7 +101,8 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
             m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
             splitIndex = m_dataBuffer.indexOf("}\n{");
         }
-        if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
+        if (jsonDataComplete()) {
+            m_newlinePending = !m_interface->messageBased() && !m_dataBuffer.endsWith('\n');
             packets.append(m_dataBuffer);
             m_dataBuffer.clear();
         }
@@ -110,6 +111,50 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
     return packets;
 }
 
+QByteArray TunnelProxyClient::removePendingNewline(const QByteArray &data)
+{
+    if (!m_newlinePending || data.isEmpty())
+        return data;
+
+    m_newlinePending = false;
+    return data.startsWith('\n') ? data.mid(1) : data;
+}
+
+bool TunnelProxyClient::jsonDataComplete() const
+{
+    if (!m_dataBuffer.endsWith("}\n") && !m_dataBuffer.endsWith("}"))
+        return false;
+
+    if (m_interface->messageBased())
+        return true;
+
+    // A fragment can end with any closing brace. It is the end of the request only
+    // if it closes the outermost object and is not part of a string.
+    int depth = 0;
+    bool inString = false;
+    for (int i = 0; i < m_dataBuffer.length(); i++) {
+        const char character = m_dataBuffer.at(i);
+        if (inString) {
+            if (character == '\\') {
+                i++;
+            } else if (character == '"') {
+                inString = false;
+            } else if (character == '\n') {
+                // Not allowed within a string, waiting for more data will not make it valid
+                return true;
+            }
+        } else if (character == '"') {
+            inString = true;
+        } else if (character == '{') {
+            depth++;
+        } else if (character == '}') {
+            depth--;
+        }
+    }
+
+    return !inString && depth <= 0;
+}
+
 void TunnelProxyClient::activateClient()
 {
     // This connection has been registered as TypeServer or TypeClient
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
index c1decfc..74201f5 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
@@ -54,6 +54,10 @@ public:
     // Json server methods
     QList<QByteArray> processData(const QByteArray &data) override;
 
+    // If the last request has been processed before its terminating newline arrived, the newline
+    // is the first byte received afterwards and has to be removed, it is not part of what follows.
+    QByteArray removePendingNewline(const QByteArray &data);
+
     // This method will be called from the proxy server once the client is
     // registered correctly as server or client connection and is now active
     void activateClient();
@@ -64,6 +68,10 @@ signals:
 private:
     QTimer *m_inactiveTimer = nullptr;
     Type m_type = TypeNone;
+    bool m_newlinePending = false;
+
+    // Returns true if the end of the buffered JSON data is the end of a request
+    bool jsonDataComplete() const;
 
 };
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..e3041a8 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -367,7 +367,7 @@ void TunnelProxyServer::onClientDisconnected(const QUuid &clientId)
     tunnelProxyClient->deleteLater();
 }
 
-void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByteArray &data)
+void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByteArray &receivedData)
 {
     TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
     if (!tunnelProxyClient) {
@@ -375,8 +375,12 @@ void TunnelProxyServer::onClientDataAvailable(const QUuid &clientId, const QByte
         return;
     }
 
-    qCDebug(dcTunnelProxyServerTraffic()) << "Client data available" << tunnelProxyClient << qUtf8Printable(data);
-    tunnelProxyClient->addRxDataCount(data.count());
+    qCDebug(dcTunnelProxyServerTraffic()) << "Client data available" << tunnelProxyClient << qUtf8Printable(receivedData);
+    tunnelProxyClient->addRxDataCount(receivedData.count());
+
+    const QByteArray data = tunnelProxyClient->removePendingNewline(receivedData);
+    if (data.isEmpty() && !receivedData.isEmpty())
+        return;
 
     if (tunnelProxyClient->type() == TunnelProxyClient::TypeClient) {
         // Send the data to the server using slip encoded frame
-- 
2.43.0


From e9ae89d92180b6ffa3795d9e452e1c12f245acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 07/30] fix: a start() undone by stop() must not turn the
 engine running

setRunning(true) is queued by start(). When stop() was called before the
event loop got to it the engine reported running without any server.
---
 libnymea-remoteproxy/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 8777293..435f421 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -250,6 +250,10 @@ void Engine::setRunning(bool running)
     if (m_running == running)
         return;
 
+    // The engine has been stopped before the queued start took effect
+    if (running && !m_tunnelProxyServer)
+        return;
+
     if (m_tunnelProxyServer)
         m_tunnelProxyServer->setRunning(running);
 
-- 
2.43.0


From 02d5ee7b0345e21fefa7db7ed5c0085b3c875578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:22 +0000
Subject: [PATCH 08/30] fix: end connections whose peer does not read when they
 are inactive

An inactive connection is closed gracefully, which never completes while
data is waiting for a peer that does not read. Abort the connection if it
is still there one timeout later.
---
 libnymea-remoteproxy/server/tcpsocketserver.cpp        | 10 ++++++++++
 libnymea-remoteproxy/server/tcpsocketserver.h          |  1 +
 libnymea-remoteproxy/server/transportinterface.h       |  4 ++++
 libnymea-remoteproxy/server/unixsocketserver.cpp       | 10 ++++++++++
 libnymea-remoteproxy/server/unixsocketserver.h         |  1 +
 libnymea-remoteproxy/server/websocketserver.cpp        | 10 ++++++++++
 libnymea-remoteproxy/server/websocketserver.h          |  1 +
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp |  9 ++++++++-
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h   |  1 +
 9 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index b130586..feafb3d 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -70,6 +70,16 @@ void TcpSocketServer::killClientConnection(const QUuid &clientId, const QString
     client->close();
 }
 
+void TcpSocketServer::abortClientConnection(const QUuid &clientId)
+{
+    QSslSocket *client = m_clientList.value(clientId);
+    if (!client)
+        return;
+
+    qCWarning(dcTcpSocketServer()) << "Abort client connection" << clientId.toString();
+    client->abort();
+}
+
 uint TcpSocketServer::connectionsCount() const
 {
     return m_clientList.count();
diff --git a/libnymea-remoteproxy/server/tcpsocketserver.h b/libnymea-remoteproxy/server/tcpsocketserver.h
index 8298f5b..48dc2d5 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.h
+++ b/libnymea-remoteproxy/server/tcpsocketserver.h
@@ -85,6 +85,7 @@ public:
 
     void sendData(const QUuid &clientId, const QByteArray &data) override;
     void killClientConnection(const QUuid &clientId, const QString &killReason) override;
+    void abortClientConnection(const QUuid &clientId) override;
 
     uint connectionsCount() const override;
 
diff --git a/libnymea-remoteproxy/server/transportinterface.h b/libnymea-remoteproxy/server/transportinterface.h
index ebeb370..77b124f 100644
--- a/libnymea-remoteproxy/server/transportinterface.h
+++ b/libnymea-remoteproxy/server/transportinterface.h
@@ -46,6 +46,10 @@ public:
     virtual void sendData(const QUuid &clientId, const QByteArray &data) = 0;
     virtual void killClientConnection(const QUuid &clientId, const QString &killReason) = 0;
 
+    // Killing a connection still delivers the data waiting to be sent. Abort drops the connection
+    // right away, even if the peer does not read any more.
+    virtual void abortClientConnection(const QUuid &clientId) = 0;
+
     virtual uint connectionsCount() const = 0;
 
     // True if the transport delivers complete messages, false if it delivers a stream of bytes
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index d452382..53ff759 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -73,6 +73,16 @@ void UnixSocketServer::killClientConnection(const QUuid &clientId, const QString
     }
 }
 
+void UnixSocketServer::abortClientConnection(const QUuid &clientId)
+{
+    QLocalSocket *client = m_clientList.value(clientId);
+    if (!client)
+        return;
+
+    qCWarning(dcUnixSocketServer()) << "Abort client connection" << clientId.toString();
+    client->abort();
+}
+
 uint UnixSocketServer::connectionsCount() const
 {
     return m_clientList.count();
diff --git a/libnymea-remoteproxy/server/unixsocketserver.h b/libnymea-remoteproxy/server/unixsocketserver.h
index 6f35f6d..201d91a 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.h
+++ b/libnymea-remoteproxy/server/unixsocketserver.h
@@ -46,6 +46,7 @@ public:
 
     void sendData(const QUuid &clientId, const QByteArray &data) override;
     void killClientConnection(const QUuid &clientId, const QString &killReason) override;
+    void abortClientConnection(const QUuid &clientId) override;
 
     uint connectionsCount() const override;
 
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c7eefa5..83faec1 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -81,6 +81,16 @@ void WebSocketServer::killClientConnection(const QUuid &clientId, const QString
     client->close(QWebSocketProtocol::CloseCodeBadOperation, killReason);
 }
 
+void WebSocketServer::abortClientConnection(const QUuid &clientId)
+{
+    QWebSocket *client = m_clientList.value(clientId);
+    if (!client)
+        return;
+
+    qCWarning(dcWebSocketServer()) << "Abort client connection" << clientId.toString();
+    client->abort();
+}
+
 uint WebSocketServer::connectionsCount() const
 {
     return m_clientList.count();
diff --git a/libnymea-remoteproxy/server/websocketserver.h b/libnymea-remoteproxy/server/websocketserver.h
index cbd663b..c30af49 100644
--- a/libnymea-remoteproxy/server/websocketserver.h
+++ b/libnymea-remoteproxy/server/websocketserver.h
@@ -52,6 +52,7 @@ public:
 
     void sendData(const QUuid &clientId, const QByteArray &data) override;
     void killClientConnection(const QUuid &clientId, const QString &killReason) override;
+    void abortClientConnection(const QUuid &clientId) override;
 
     uint connectionsCount() const override;
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index f3cfa67..8f73017 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -41,9 +41,16 @@ TunnelProxyClient::TunnelProxyClient(TransportInterface *interface, const QUuid
     // The tunnelproxy server will call activateClient once registered successfully to stop this timer.
     m_inactiveTimer = new QTimer(this);
     m_inactiveTimer->setInterval(Engine::instance()->configuration()->inactiveTimeout());
-    m_inactiveTimer->setSingleShot(true);
+    m_inactiveTimer->setSingleShot(false);
 
     connect(m_inactiveTimer, &QTimer::timeout, this, [this](){
+        if (m_inactiveTimeoutOccurred) {
+            // The connection has been closed, but the peer did not take the remaining data
+            m_interface->abortClientConnection(m_clientId);
+            return;
+        }
+
+        m_inactiveTimeoutOccurred = true;
         m_interface->killClientConnection(m_clientId, "Tunnelproxy client timeout occurred. The socket was inactive.");
     });
 
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
index 74201f5..bf79614 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.h
@@ -67,6 +67,7 @@ signals:
 
 private:
     QTimer *m_inactiveTimer = nullptr;
+    bool m_inactiveTimeoutOccurred = false;
     Type m_type = TypeNone;
     bool m_newlinePending = false;
 
-- 
2.43.0


From ec7a6549d5a7b3c829ed542cda83085a64a4542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:22 +0000
Subject: [PATCH 09/30] fix: send null bytes within a payload to web socket
 clients

The implicit conversion to QString stops at the first null byte, so the
rest of the payload was lost.
---
 libnymea-remoteproxy/server/websocketserver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index 83faec1..665972e 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -64,7 +64,8 @@ void WebSocketServer::sendData(const QUuid &clientId, const QByteArray &data)
     client = m_clientList.value(clientId);
     if (client) {
         qCDebug(dcWebSocketServerTraffic()) << "--> Sending data to client:" << data;
-        client->sendTextMessage(data);
+        // Note: the implicit conversion would stop at the first null byte
+        client->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
     } else {
         qCWarning(dcWebSocketServer()) << "Client" << clientId << "unknown to this transport";
     }
-- 
2.43.0


From 74fb56626a21df7cbc54e11f91b9277a40fbab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:11 +0000
Subject: [PATCH 10/30] fix: take over what follows the registration response
 in the same packet

The client library treated everything it received up to the registration as
JSON RPC: tunnel data and frames arriving together with the response were lost
or kept the connection from being established, and a fragment which ends with
a closing brace was taken for a complete message.
---
 .../proxyjsonrpcclient.cpp                    | 17 ++++++++---------
 .../tunnelproxyremoteconnection.cpp           | 19 +++++++++++++++----
 .../tunnelproxy/tunnelproxysocketserver.cpp   | 18 ++++++++++++++----
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..892ab29 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -177,17 +177,16 @@ void JsonRpcClient::processData(const QByteArray &data)
 {
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Received data:" << data;
 
-    // Handle packet fragmentation
+    // Handle packet fragmentation, each message ends with a line break
     m_dataBuffer.append(data);
-    int splitIndex = m_dataBuffer.indexOf("}\n{");
+    int splitIndex = m_dataBuffer.indexOf('\n');
     while (splitIndex > -1) {
-        processDataPacket(m_dataBuffer.left(splitIndex + 1));
-        m_dataBuffer = m_dataBuffer.right(m_dataBuffer.length() - splitIndex - 2);
-        splitIndex = m_dataBuffer.indexOf("}\n{");
-    }
-    if (m_dataBuffer.endsWith("}\n") || m_dataBuffer.endsWith("}")) {
-        processDataPacket(m_dataBuffer);
-        m_dataBuffer.clear();
+        const QByteArray packet = m_dataBuffer.left(splitIndex);
+        m_dataBuffer.remove(0, splitIndex + 1);
+        if (!packet.isEmpty())
+            processDataPacket(packet);
+
+        splitIndex = m_dataBuffer.indexOf('\n');
     }
 }
 
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..d7e8acf 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -176,12 +176,23 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 
 void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &data)
 {
-    if (m_state != StateRemoteConnected) {
-        m_jsonClient->processData(data);
-        return;
+    // Everything up to the response of the registration are JSON RPC messages, one per line.
+    // The data of the remote server may follow within the same packet.
+    int position = 0;
+    while (m_state != StateRemoteConnected) {
+        if (!m_jsonClient || position >= data.length())
+            return;
+
+        int lineEnd = data.indexOf('\n', position);
+        if (lineEnd < 0)
+            lineEnd = data.length() - 1;
+
+        m_jsonClient->processData(data.mid(position, lineEnd + 1 - position));
+        position = lineEnd + 1;
     }
 
-    emit dataReady(data);
+    if (position < data.length())
+        emit dataReady(data.mid(position));
 }
 
 void TunnelProxyRemoteConnection::onConnectionSocketError(QAbstractSocket::SocketError error)
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..4c78ba4 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -192,14 +192,24 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
     // We recived data, let's reset the keep alive timer
     m_keepAliveTimer.start();
 
-    if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
+    // Everything up to the response of the registration are JSON RPC messages, one per line.
+    // The first SLIP frames may follow within the same packet.
+    int position = 0;
+    while (m_state != StateRunning) {
         m_dataBuffer.clear();
-        return;
+        if (!m_jsonClient || position >= data.length())
+            return;
+
+        int lineEnd = data.indexOf('\n', position);
+        if (lineEnd < 0)
+            lineEnd = data.length() - 1;
+
+        m_jsonClient->processData(data.mid(position, lineEnd + 1 - position));
+        position = lineEnd + 1;
     }
 
     // Parse SLIP frame
-    for (int i = 0; i < data.length(); i++) {
+    for (int i = position; i < data.length(); i++) {
         quint8 byte = static_cast<quint8>(data.at(i));
         if (byte == SlipDataProcessor::ProtocolByteEnd) {
             // If there is no data...continue since it might be a starting END byte
-- 
2.43.0


From 222f318dc344f764c05c4b8f22a7e62442aae358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:11 +0000
Subject: [PATCH 11/30] fix: send null bytes within a payload from web socket
 connections of the client library

---
 libnymea-remoteproxyclient/websocketconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/websocketconnection.cpp b/libnymea-remoteproxyclient/websocketconnection.cpp
index 91a4165..421f3c5 100644
--- a/libnymea-remoteproxyclient/websocketconnection.cpp
+++ b/libnymea-remoteproxyclient/websocketconnection.cpp
@@ -51,7 +51,7 @@ WebSocketConnection::~WebSocketConnection()
 
 void WebSocketConnection::sendData(const QByteArray &data)
 {
-    m_webSocket->sendTextMessage(QString::fromUtf8(data));
+    m_webSocket->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
 }
 
 void WebSocketConnection::ignoreSslErrors()
-- 
2.43.0


From ef039ba791b5f5c4daf2fe284fafe52e4a5e0944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:12 +0000
Subject: [PATCH 12/30] fix: connecting the client library again must not break
 the new connection

The connection being replaced still announced its end, upon which the new one
was deleted while being set up.
---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp                 | 2 ++
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index d7e8acf..c8518e5 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -312,6 +312,8 @@ void TunnelProxyRemoteConnection::cleanUp()
     }
 
     if (m_connection) {
+        // The connection still emits signals while it gets deleted, they must not affect the next one
+        disconnect(m_connection, nullptr, this, nullptr);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 4c78ba4..abd1dab 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -467,6 +467,8 @@ void TunnelProxySocketServer::cleanUp()
     }
 
     if (m_connection) {
+        // The connection still emits signals while it gets deleted, they must not affect the next one
+        disconnect(m_connection, nullptr, this, nullptr);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From 0803167330db86faa65f02edb75f31578b32913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:49 +0000
Subject: [PATCH 13/30] fix: match replies of the client library by distinct
 ids and never with notifications

All requests had the id 0, so a second request replaced the first one waiting
for its reply, and a notification with the id of a request was taken for its
reply and got lost.
---
 libnymea-remoteproxyclient/jsonreply.cpp          |  1 -
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 14 +++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/libnymea-remoteproxyclient/jsonreply.cpp b/libnymea-remoteproxyclient/jsonreply.cpp
index 34dbddd..956b8a3 100644
--- a/libnymea-remoteproxyclient/jsonreply.cpp
+++ b/libnymea-remoteproxyclient/jsonreply.cpp
@@ -67,7 +67,6 @@ QVariantMap JsonReply::requestMap()
     if (!m_params.isEmpty())
         request.insert("params", params());
 
-    m_commandId++;
     return request;
 }
 
diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 892ab29..dfbbe00 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -48,7 +48,7 @@ JsonReply *JsonRpcClient::callHello()
     JsonReply *reply = new JsonReply(m_commandId, "RemoteProxy", "Hello", QVariantMap(), this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -61,7 +61,7 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterServer", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -75,7 +75,7 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "RegisterClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -87,7 +87,7 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "DisconnectClient", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -99,7 +99,7 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     JsonReply *reply = new JsonReply(m_commandId, "TunnelProxy", "Ping", params, this);
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
-    m_replies.insert(m_commandId, reply);
+    m_replies.insert(m_commandId++, reply);
     return reply;
 }
 
@@ -131,9 +131,9 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // check if this is a reply to a request
+    // check if this is a reply to a request, notifications have ids of their own
     int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
+    JsonReply *reply = dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From 4e056697686c6a4c1302c0001f3251d5bbff4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:41 +0000
Subject: [PATCH 14/30] fix: try to reconnect also if the first connection
 fails right away

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index abd1dab..2a2ce50 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -148,8 +148,8 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
     connect(m_jsonClient, &JsonRpcClient::tunnelProxyClientDisonnected, this, &TunnelProxySocketServer::onTunnelProxyClientDisconnected);
 
     qCDebug(dcTunnelProxySocketServer()) << "Connecting to" << m_serverUrl.toString();
+    m_enabled = true; // Note: connecting may fail right away, this has to start the reconnect timer
     m_connection->connectServer(m_serverUrl);
-    m_enabled = true;
 
     return true;
 }
-- 
2.43.0


From eff51d42dc3a9c555b0ce08cdbf94681ccff495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 15/30] fix: keep a tunnel server alive which only receives
 data

The proxy ends servers which do not send anything for a minute. The keep alive
timer was restarted with everything received, so a server receiving data more
often than every 30 seconds never sent a ping and got disconnected.
---
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 2a2ce50..c8c24cf 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -189,9 +189,6 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 {
     qCDebug(dcTunnelProxySocketServerTraffic()) << "Data received" << qUtf8Printable(data);
 
-    // We recived data, let's reset the keep alive timer
-    m_keepAliveTimer.start();
-
     // Everything up to the response of the registration are JSON RPC messages, one per line.
     // The first SLIP frames may follow within the same packet.
     int position = 0;
-- 
2.43.0


From 75020ed34cc99c6fdc801bd1e75eb57668f6de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 16/30] fix: allow calling the client library from within its
 signals and without a connection

Slots connected to the signals of the TunnelProxyRemoteConnection and the
TunnelProxySocketServer may stop, restart or reconnect them, disconnect
sockets or ignore SSL errors. The code following the emitted signal went
on with a deleted connection. Stopping while the connection gets
established could leave a connection open.
---
 .../tunnelproxyremoteconnection.cpp           | 41 ++++++++++---
 .../tunnelproxy/tunnelproxysocketserver.cpp   | 59 +++++++++++++++----
 2 files changed, 81 insertions(+), 19 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index c8518e5..696745b 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -74,12 +74,14 @@ QAbstractSocket::SocketError TunnelProxyRemoteConnection::error() const
 
 void TunnelProxyRemoteConnection::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxyRemoteConnection::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxyRemoteConnection::serverUrl() const
@@ -115,6 +117,10 @@ bool TunnelProxyRemoteConnection::connectServer(const QUrl &url, const QUuid &se
 
     cleanUp();
 
+    // Connected again by a slot
+    if (m_connection)
+        return true;
+
     switch (m_connectionType) {
     case ConnectionTypeWebSocket:
         qCDebug(dcTunnelProxyRemoteConnection()) << "Creating a web socket connection to" << url.toString();
@@ -142,9 +148,15 @@ bool TunnelProxyRemoteConnection::connectServer(const QUrl &url, const QUuid &se
 
 void TunnelProxyRemoteConnection::disconnectServer()
 {
-    if (m_connection) {
-        qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnecting from" << m_connection->serverUrl().toString();
-        m_connection->disconnectServer();
+    ProxyConnection *connection = m_connection;
+    if (connection) {
+        qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnecting from" << connection->serverUrl().toString();
+        connection->disconnectServer();
+
+        // There is no disconnect to wait for if the connection has not been established yet
+        if (m_connection == connection && !connection->connected()) {
+            cleanUp();
+        }
     }
 }
 
@@ -161,16 +173,26 @@ bool TunnelProxyRemoteConnection::sendData(const QByteArray &data)
 
 void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 {
+    // Note: the slots connected to our signals may disconnect or connect again
+    ProxyConnection *connection = m_connection;
+
     if (connected) {
         qCDebug(dcTunnelProxyRemoteConnection()) << "Connected to remote proxy server.";
         setState(StateConnected);
+        if (m_connection != connection)
+            return;
+
         setState(StateInitializing);
+        if (m_connection != connection)
+            return;
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onHelloFinished);
     } else {
         qCDebug(dcTunnelProxyRemoteConnection()) << "Disconnected from remote proxy server.";
         setState(StateDisconnected);
-        cleanUp();
+        if (m_connection == connection)
+            cleanUp();
     }
 }
 
@@ -178,9 +200,11 @@ void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &da
 {
     // Everything up to the response of the registration are JSON RPC messages, one per line.
     // The data of the remote server may follow within the same packet.
+    // Note: the slots connected to our signals may disconnect or connect again
+    ProxyConnection *connection = m_connection;
     int position = 0;
     while (m_state != StateRemoteConnected) {
-        if (!m_jsonClient || position >= data.length())
+        if (!m_connection || m_connection != connection || position >= data.length())
             return;
 
         int lineEnd = data.indexOf('\n', position);
@@ -245,7 +269,10 @@ void TunnelProxyRemoteConnection::onHelloFinished()
     m_remoteProxyServerVersion = responseParams.value("version").toString();
     m_remoteProxyApiVersion = responseParams.value("apiVersion").toString();
 
+    ProxyConnection *connection = m_connection;
     setState(StateRegister);
+    if (m_connection != connection)
+        return;
 
     JsonReply *registerReply = m_jsonClient->callRegisterClient(m_clientUuid, m_clientName, m_serverUuid);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxyRemoteConnection::onClientRegistrationFinished);
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index c8c24cf..e9c0e34 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -81,12 +81,14 @@ TunnelProxySocketServer::State TunnelProxySocketServer::state() const
 
 void TunnelProxySocketServer::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxySocketServer::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxySocketServer::serverUrl() const
@@ -126,6 +128,10 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
 
     cleanUp();
 
+    // The server has been started again by a slot
+    if (m_connection)
+        return true;
+
     switch (m_connectionType) {
     case ConnectionTypeWebSocket:
         qCDebug(dcTunnelProxySocketServer()) << "Creating a web socket connection to" << m_serverUrl.toString();
@@ -161,27 +167,43 @@ void TunnelProxySocketServer::stopServer()
 
     qCDebug(dcTunnelProxySocketServer()) << "Stopping the server.";
 
-    if (m_connection) {
-        qCDebug(dcTunnelProxySocketServer()) << "Disconnecting from" << m_connection->serverUrl().toString();
-        m_connection->disconnectServer();
+    ProxyConnection *connection = m_connection;
+    if (connection) {
+        qCDebug(dcTunnelProxySocketServer()) << "Disconnecting from" << connection->serverUrl().toString();
+        connection->disconnectServer();
+
+        // There is no disconnect to wait for if the connection has not been established yet
+        if (m_connection == connection && !connection->connected()) {
+            cleanUp();
+        }
     }
 }
 
 void TunnelProxySocketServer::onConnectionChanged(bool connected)
 {
+    // Note: the slots connected to our signals may stop or restart the server
+    ProxyConnection *connection = m_connection;
+
     if (connected) {
         qCDebug(dcTunnelProxySocketServer()) << "Connected to remote proxy server.";
         setState(StateConnected);
+        if (m_connection != connection)
+            return;
+
         m_serverError = TunnelProxySocketServer::ErrorNoError;
 
         setState(StateInitializing);
+        if (m_connection != connection)
+            return;
+
         JsonReply *reply = m_jsonClient->callHello();
         connect(reply, &JsonReply::finished, this, &TunnelProxySocketServer::onHelloFinished);
     } else {
         qCDebug(dcTunnelProxySocketServer()) << "Disconnected from remote proxy server.";
         setState(StateDisconnected);
         setServerError(ErrorNotConnected);
-        cleanUp();
+        if (m_connection == connection)
+            cleanUp();
     }
 }
 
@@ -191,10 +213,12 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
 
     // Everything up to the response of the registration are JSON RPC messages, one per line.
     // The first SLIP frames may follow within the same packet.
+    // Note: the slots connected to our signals may stop or restart the server
+    ProxyConnection *connection = m_connection;
     int position = 0;
     while (m_state != StateRunning) {
         m_dataBuffer.clear();
-        if (!m_jsonClient || position >= data.length())
+        if (!m_connection || m_connection != connection || position >= data.length())
             return;
 
         int lineEnd = data.indexOf('\n', position);
@@ -233,6 +257,8 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
             }
 
             m_dataBuffer.clear();
+            if (m_connection != connection)
+                return;
         } else {
             m_dataBuffer.append(data.at(i));
         }
@@ -292,7 +318,10 @@ void TunnelProxySocketServer::onHelloFinished()
     m_remoteProxyServerVersion = responseParams.value("version").toString();
     m_remoteProxyApiVersion = responseParams.value("apiVersion").toString();
 
+    ProxyConnection *connection = m_connection;
     setState(StateRegister);
+    if (m_connection != connection)
+        return;
 
     JsonReply *registerReply = m_jsonClient->callRegisterServer(m_serverUuid, m_serverName);
     connect(registerReply, &JsonReply::finished, this, &TunnelProxySocketServer::onServerRegistrationFinished);
@@ -351,6 +380,9 @@ void TunnelProxySocketServer::onTunnelProxyClientDisconnected(quint16 socketAddr
 void TunnelProxySocketServer::requestSocketDisconnect(quint16 socketAddress)
 {
     TunnelProxySocket *socket = m_tunnelProxySockets.value(socketAddress);
+    if (!socket || !m_jsonClient)
+        return;
+
     qCDebug(dcTunnelProxySocketServer()) << "Request to disconnect socket" << socket;
 
     JsonReply *reply = m_jsonClient->callDisconnectClient(socketAddress);
@@ -454,10 +486,6 @@ void TunnelProxySocketServer::setServerError(Error error)
 
 void TunnelProxySocketServer::cleanUp()
 {
-    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
-        onTunnelProxyClientDisconnected(socketAddress);
-    }
-
     if (m_jsonClient) {
         m_jsonClient->deleteLater();
         m_jsonClient = nullptr;
@@ -475,7 +503,14 @@ void TunnelProxySocketServer::cleanUp()
     m_remoteProxyServerVersion.clear();
     m_remoteProxyApiVersion.clear();
 
-    setState(StateDisconnected);
+    // Note: the slots connected to these signals may start the server again
+    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {
+        onTunnelProxyClientDisconnected(socketAddress);
+    }
+
+    if (!m_connection) {
+        setState(StateDisconnected);
+    }
 }
 
 }
-- 
2.43.0


From a902a2b31d2052a0d0bda9c77e56170b369e42ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 17/30] fix: read reports of the monitor server however they
 arrive

The end of a report was only found if its last two bytes arrived together,
and only the first report of the received data was processed.
---
 monitor/monitorclient.cpp | 24 ++++++++++--------------
 monitor/monitorclient.h   |  2 +-
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..918c237 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -50,10 +50,10 @@ void MonitorClient::setPrintAll(bool printAll)
     m_printAll = printAll;
 }
 
-void MonitorClient::processBufferData()
+void MonitorClient::processData(const QByteArray &data)
 {
     QJsonParseError error;
-    QJsonDocument jsonDoc = QJsonDocument::fromJson(m_dataBuffer, &error);
+    QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
     if(error.error != QJsonParseError::NoError) {
         qWarning() << "Failed to parse JSON data:" << error.errorString();
         return;
@@ -85,18 +85,14 @@ void MonitorClient::onDisconnected()
 void MonitorClient::onReadyRead()
 {
     // Note: the server sends the data compact with "\n" at the end
-    QByteArray data = m_socket->readAll();
-
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
-        processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+    m_dataBuffer.append(m_socket->readAll());
+
+    int index = m_dataBuffer.indexOf('\n');
+    while (index >= 0) {
+        QByteArray data = m_dataBuffer.left(index);
+        m_dataBuffer.remove(0, index + 1);
+        processData(data);
+        index = m_dataBuffer.indexOf('\n');
     }
 }
 
diff --git a/monitor/monitorclient.h b/monitor/monitorclient.h
index 113b3df..1293be7 100644
--- a/monitor/monitorclient.h
+++ b/monitor/monitorclient.h
@@ -48,7 +48,7 @@ private:
     bool m_printAll = false;
     QByteArray m_dataBuffer;
 
-    void processBufferData();
+    void processData(const QByteArray &data);
 
 signals:
     void connected();
-- 
2.43.0


From b3e279a9403990cf9f7291e3c2fc90b0f2eb9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:35 +0000
Subject: [PATCH 18/30] fix: the JSON mode of the monitor ends successfully
 once it printed the report

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 918c237..b3cfe51 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -63,7 +63,7 @@ void MonitorClient::processData(const QByteArray &data)
         qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
         QTextStream out(stdout);
         out.flush();
-        exit(EXIT_FAILURE);
+        exit(EXIT_SUCCESS);
     }
 
     QVariantMap dataMap = jsonDoc.toVariant().toMap();
-- 
2.43.0


From a20e35668fb1ec9ae4201e6ffa55217abf2a5fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:40 +0000
Subject: [PATCH 19/30] fix: print the traffic of each client in the
 non-interactive monitor, not the one of its server

---
 monitor/noninteractivemonitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index f149bc7..cf41d42 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
-- 
2.43.0


From 4eb017b65967b3289ebf62f29f1cb3ae47bd63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:51 +0000
Subject: [PATCH 20/30] fix: show more than 2 GB of traffic in the monitor

---
 monitor/noninteractivemonitor.cpp |  8 ++++----
 monitor/terminalwindow.cpp        | 14 +++++++-------
 monitor/utils.h                   |  2 +-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index cf41d42..ec3cf8f 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -78,8 +78,8 @@ void NonInteractiveMonitor::onConnected()
                     .arg(serverConnectionTime)
                     .arg(serverMap.value("serverUuid").toString())
                     .arg(serverMap.value("address").toString(), - 15)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toLongLong()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toLongLong()), - 9)
                     .arg(serverMap.value("name").toString());
 
             qStdOut() << serverLinePrint << "\n";
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toLongLong()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toLongLong()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 182c988..ffc0362 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -194,8 +194,8 @@ void TerminalWindow::paintContentClients()
         uint timeStamp = clientMap.value("timestamp").toUInt();
         QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
-        int rxDataCountBytes = clientMap.value("rxDataCount").toInt();
-        int txDataCountBytes = clientMap.value("txDataCount").toInt();
+        qint64 rxDataCountBytes = clientMap.value("rxDataCount").toLongLong();
+        qint64 txDataCountBytes = clientMap.value("txDataCount").toLongLong();
 
         QString clientPrint = QString("%1 | %2 | %3 | RX: %4 | TX: %5 | %6 | %7 | %8")
                 .arg(clientConnectionTime)
@@ -228,7 +228,7 @@ void TerminalWindow::paintContentTunnels()
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
                 .arg(Utils::getDurationString(timeStamp))
-                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toInt() + clientOne.value("txDataCount").toInt()), - 10)
+                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toLongLong() + clientOne.value("txDataCount").toInt()), - 10)
                 .arg(clientOne.value("userName").toString())
                 .arg(clientOne.value("name").toString())
                 .arg(clientOne.value("address").toString())
@@ -250,8 +250,8 @@ void TerminalWindow::paintContentTunnelProxy()
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
         QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
-        int rxDataCountBytes = serverMap.value("rxDataCount").toInt();
-        int txDataCountBytes = serverMap.value("txDataCount").toInt();
+        qint64 rxDataCountBytes = serverMap.value("rxDataCount").toLongLong();
+        qint64 txDataCountBytes = serverMap.value("txDataCount").toLongLong();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                 .arg(serverConnectionTime)
                 .arg(serverMap.value("address").toString(), - 16)
@@ -286,8 +286,8 @@ void TerminalWindow::paintContentTunnelProxy()
             QString clientLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                     .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toULongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                     .arg(clientMap.value("address").toString(), - 16)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 10)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toLongLong()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toLongLong()), - 10)
                     .arg(clientMap.value("name").toString(), -30);
 
             mvwprintw(m_contentWindow, i, 6, "%s", clientLinePrint.trimmed().toLatin1().constData());
diff --git a/monitor/utils.h b/monitor/utils.h
index 5a121c4..3009154 100644
--- a/monitor/utils.h
+++ b/monitor/utils.h
@@ -49,7 +49,7 @@ public:
         return QString::asprintf("%02d:%02d:%02d", hours, minutes, seconds);
     }
 
-    inline static QString humanReadableTraffic(int bytes) {
+    inline static QString humanReadableTraffic(qint64 bytes) {
         double dataCount = bytes;
         QStringList list;
         list << "KB" << "MB" << "GB" << "TB";
-- 
2.43.0


From 476a5b3530b8ddfbe07b8ac0f08af43fa4149961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:09 +0000
Subject: [PATCH 21/30] fix: show the connection times in the monitor window

Seconds since the epoch times 1000 do not fit into 32 bits.
---
 monitor/terminalwindow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index ffc0362..bb490a7 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -192,7 +192,7 @@ void TerminalWindow::paintContentClients()
         QVariantMap clientMap = clientVariant.toMap();
 
         uint timeStamp = clientMap.value("timestamp").toUInt();
-        QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         qint64 rxDataCountBytes = clientMap.value("rxDataCount").toLongLong();
         qint64 txDataCountBytes = clientMap.value("txDataCount").toLongLong();
@@ -223,7 +223,7 @@ void TerminalWindow::paintContentTunnels()
 
         // Tunnel time
         uint timeStamp = tunnelMap.value("timestamp").toUInt();
-        QString tunnelConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString tunnelConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
@@ -249,7 +249,7 @@ void TerminalWindow::paintContentTunnelProxy()
     foreach (const QVariant &serverVariant, tunnelProxyMap.value("tunnelConnections").toList()) {
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
-        QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
         qint64 rxDataCountBytes = serverMap.value("rxDataCount").toLongLong();
         qint64 txDataCountBytes = serverMap.value("txDataCount").toLongLong();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
-- 
2.43.0


From f9f9fc63574a13265b23378a61deed8ac4cea95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:19 +0000
Subject: [PATCH 22/30] fix: end the server in its event loop on a signal, not
 in the signal handler

A signal arriving during the start was lost and left a proxy with a destroyed
engine behind, and one arriving while the engine was at work destroyed the
objects in use.
---
 server/remoteproxyserverapplication.cpp | 75 +++++++++++++++++--------
 server/remoteproxyserverapplication.h   |  4 +-
 2 files changed, 54 insertions(+), 25 deletions(-)

diff --git a/server/remoteproxyserverapplication.cpp b/server/remoteproxyserverapplication.cpp
index 2370cb5..4e0384c 100644
--- a/server/remoteproxyserverapplication.cpp
+++ b/server/remoteproxyserverapplication.cpp
@@ -26,6 +26,8 @@
 #include "loggingcategories.h"
 #include "engine.h"
 
+#include <errno.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -36,32 +38,18 @@
 
 using namespace remoteproxy;
 
+// Unix signals can arrive at any point of the program. The handler only passes them on, they are
+// processed once the event loop gets there.
+static int s_signalPipe[2] = { -1, -1 };
+
 static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
 {
     auto handler = [](int sig) ->void {
-        switch (sig) {
-        case SIGQUIT:
-            qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
-            break;
-        case SIGINT:
-            qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
-            break;
-        case SIGTERM:
-            qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
-            break;
-        case SIGHUP:
-            qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
-            break;
-        default:
-            break;
-        }
-
-        qCDebug(dcApplication()) << "==========================================================";
-        qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
-        qCDebug(dcApplication()) << "==========================================================";
-
-        Engine::instance()->destroy();
-        RemoteProxyServerApplication::quit();
+        int savedErrno = errno;
+        unsigned char signalNumber = static_cast<unsigned char>(sig);
+        ssize_t written = ::write(s_signalPipe[1], &signalNumber, sizeof(signalNumber));
+        (void)written;
+        errno = savedErrno;
     };
 
     // all these signals will be ignored.
@@ -75,5 +63,46 @@ static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vec
 RemoteProxyServerApplication::RemoteProxyServerApplication(int &argc, char **argv) :
     QCoreApplication(argc, argv)
 {
+    if (::pipe2(s_signalPipe, O_CLOEXEC | O_NONBLOCK) != 0) {
+        qCWarning(dcApplication()) << "Could not create the pipe for catching signals:" << strerror(errno);
+        return;
+    }
+
+    QSocketNotifier *signalNotifier = new QSocketNotifier(s_signalPipe[0], QSocketNotifier::Read, this);
+    connect(signalNotifier, SIGNAL(activated(int)), this, SLOT(onUnixSignal()));
+
     catchUnixSignals({SIGQUIT, SIGINT, SIGTERM, SIGHUP});
 }
+
+void RemoteProxyServerApplication::onUnixSignal()
+{
+    unsigned char sig = 0;
+    if (::read(s_signalPipe[0], &sig, sizeof(sig)) != sizeof(sig))
+        return;
+
+    switch (sig) {
+    case SIGQUIT:
+        qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
+        break;
+    case SIGINT:
+        qCDebug(dcApplication()) << "Cought SIGINT quit signal...";
+        break;
+    case SIGTERM:
+        qCDebug(dcApplication()) << "Cought SIGTERM quit signal...";
+        break;
+    case SIGHUP:
+        qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
+        break;
+    default:
+        break;
+    }
+
+    qCDebug(dcApplication()) << "==========================================================";
+    qCDebug(dcApplication) << "Shutting down nymea-remoteproxy";
+    qCDebug(dcApplication()) << "==========================================================";
+
+    if (Engine::exists())
+        Engine::instance()->destroy();
+
+    quit();
+}
diff --git a/server/remoteproxyserverapplication.h b/server/remoteproxyserverapplication.h
index 9c53d20..6d720be 100644
--- a/server/remoteproxyserverapplication.h
+++ b/server/remoteproxyserverapplication.h
@@ -35,9 +35,9 @@ class RemoteProxyServerApplication : public QCoreApplication
 public:
     explicit RemoteProxyServerApplication(int &argc, char **argv);
 
-signals:
+private slots:
+    void onUnixSignal();
 
-public slots:
 };
 
 #endif // REMOTEPROXYSERVERAPPLICATION_H
-- 
2.43.0


From ebbb3c829574652eeadbeceede88c6a425e87d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:11 +0000
Subject: [PATCH 23/30] fix: the tunnel client sends random data only if asked
 to

Without -r/--random a client connection sent 100 random characters every second
through the tunnel as soon as it was connected.
---
 tunnelclient/clientconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tunnelclient/clientconnection.cpp b/tunnelclient/clientconnection.cpp
index 8d0bb16..71f0a47 100644
--- a/tunnelclient/clientconnection.cpp
+++ b/tunnelclient/clientconnection.cpp
@@ -55,7 +55,7 @@ ClientConnection::ClientConnection(const QUrl &serverUrl, const QString &name, c
 
     connect(m_remoteConnection, &TunnelProxyRemoteConnection::remoteConnectedChanged, this, [this](bool remoteConnected){
         qDebug() << "Remote connection" << (remoteConnected ? "established successfully" : "disconnected");
-        if (remoteConnected) {
+        if (remoteConnected && m_sendRandomData) {
             m_timer.start(1000);
         }
     });
-- 
2.43.0


From eba162535258b2681d5800bc7c71c8f0d2ac1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:28 +0000
Subject: [PATCH 24/30] fix: client library: a message without an id was taken
 for the reply to the first call

---
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index dfbbe00..3903dce 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -132,8 +132,9 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
     qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << "Data received" << qUtf8Printable(data);
 
     // check if this is a reply to a request, notifications have ids of their own
-    int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = dataMap.contains("notification") ? nullptr : m_replies.take(commandId);
+    bool validId = false;
+    int commandId = dataMap.value("id").toInt(&validId);
+    JsonReply *reply = validId && !dataMap.contains("notification") ? m_replies.take(commandId) : nullptr;
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From 6b0ea541f5fcacf6c0003056ea09a8e3cd838ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:17 +0000
Subject: [PATCH 25/30] fix: refuse certificate and key files that contain no
 certificate or usable key

---
 libnymea-remoteproxy/proxyconfiguration.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index 015cc63..889a662 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -95,6 +95,10 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
         return false;
     }
     QSslCertificate certificate(&certFile, QSsl::Pem);
+    if (sslEnabled() && certificate.isNull()) {
+        qCWarning(dcApplication()) << "There is no certificate in the certificate file" << sslCertificateFileName();
+        return false;
+    }
     qCDebug(dcApplication()) << "Loaded successfully certificate" << sslCertificateFileName();
     certFile.close();
     sslConfiguration.setLocalCertificate(certificate);
@@ -106,6 +110,10 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
         return false;
     }
     QSslKey sslKey(&certKeyFile, QSsl::Rsa, QSsl::Pem, QSsl::PrivateKey);
+    if (sslEnabled() && sslKey.isNull()) {
+        qCWarning(dcApplication()) << "There is no usable key in the certificate key file" << sslCertificateKeyFileName();
+        return false;
+    }
     qCDebug(dcApplication()) << "Loaded successfully certificate key" << sslCertificateKeyFileName();
     certKeyFile.close();
     sslConfiguration.setPrivateKey(sslKey);
-- 
2.43.0


From 9432767bace32b71e409b941983f02aa13abdc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:17 +0000
Subject: [PATCH 26/30] fix: use all certificates of the certificate chain file

---
 libnymea-remoteproxy/proxyconfiguration.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/proxyconfiguration.cpp b/libnymea-remoteproxy/proxyconfiguration.cpp
index 889a662..9dc857b 100644
--- a/libnymea-remoteproxy/proxyconfiguration.cpp
+++ b/libnymea-remoteproxy/proxyconfiguration.cpp
@@ -125,8 +125,13 @@ bool ProxyConfiguration::loadConfiguration(const QString &fileName)
             qCWarning(dcApplication()) << "Could not open certificate chain file:" << sslCertificateChainFileName() << certChainFile.errorString();
             return false;
         }
-        QSslCertificate certificate(&certChainFile, QSsl::Pem);
-        sslConfiguration.setCaCertificates( QList<QSslCertificate>() << certificate );
+        // Note: the chain may have several intermediate certificates
+        QList<QSslCertificate> certificateChain = QSslCertificate::fromDevice(&certChainFile, QSsl::Pem);
+        if (sslEnabled() && certificateChain.isEmpty()) {
+            qCWarning(dcApplication()) << "There is no certificate in the certificate chain file" << sslCertificateChainFileName();
+            return false;
+        }
+        sslConfiguration.setCaCertificates(certificateChain);
         certChainFile.close();
         qCDebug(dcApplication()) << "Loaded successfully certificate chain" << sslCertificateKeyFileName();
     }
-- 
2.43.0


From d72bdd7c8ac038ff2d1e1a598c3637d2d0008370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:05 +0000
Subject: [PATCH 27/30] fix: client library: connect to tcp:// URLs that have a
 host name

---
 libnymea-remoteproxyclient/tcpsocketconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tcpsocketconnection.cpp b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
index 4107a5e..4e34edf 100644
--- a/libnymea-remoteproxyclient/tcpsocketconnection.cpp
+++ b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
@@ -123,7 +123,7 @@ void TcpSocketConnection::connectServer(const QUrl &serverUrl)
 
     if (m_serverUrl.scheme() == "tcp") {
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting to" << m_serverUrl.toString();
-        m_tcpSocket->connectToHost(QHostAddress(m_serverUrl.host()), static_cast<quint16>(m_serverUrl.port()));
+        m_tcpSocket->connectToHost(m_serverUrl.host(), static_cast<quint16>(m_serverUrl.port()));
     } else {
         m_ssl = true;
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting encrypted to" << m_serverUrl.host() + ":" + QString::number(m_serverUrl.port());
-- 
2.43.0


From 6a46870da870025d4a3a72bda70d1bc8e1c0de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:17 +0000
Subject: [PATCH 28/30] fix: the monitor's JSON output garbles names that are
 not ASCII

---
 monitor/monitorclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index b3cfe51..8a8ddf8 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -60,7 +60,7 @@ void MonitorClient::processData(const QByteArray &data)
     }
 
     if (m_jsonMode) {
-        qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
+        qStdOut() << QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
         QTextStream out(stdout);
         out.flush();
         exit(EXIT_SUCCESS);
-- 
2.43.0


From 1cccef946653f824c379660bc5d89c2f49c970cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:25 +0000
Subject: [PATCH 29/30] fix: accept connections again behind an accept error

Qt pauses the TCP server and the web socket server when a connection can
not be accepted (i.e. no file descriptors left). Nobody resumed them, no
connection was accepted any more on that port.
---
 libnymea-remoteproxy/server/tcpsocketserver.cpp | 5 +++++
 libnymea-remoteproxy/server/websocketserver.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index feafb3d..c72b51c 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -177,6 +177,11 @@ SslServer::SslServer(bool sslEnabled, const QSslConfiguration &config, QObject *
 {
     connect(this, &QTcpServer::acceptError, this, [this](QAbstractSocket::SocketError socketError){
         qCWarning(dcTcpSocketServer()) << "Accept error occurred" << socketError << errorString();
+        // Note: Qt has paused accepting connections, try again in a moment
+        QTimer::singleShot(100, this, [this](){
+            if (isListening())
+                resumeAccepting();
+        });
     });
 
     connect(this, &QTcpServer::newConnection, this, [this](){
diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index 665972e..8c10b3c 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -28,6 +28,7 @@
 #include "websocketserver.h"
 #include "loggingcategories.h"
 
+#include <QTimer>
 #include <QCoreApplication>
 
 namespace remoteproxy {
@@ -170,6 +171,11 @@ void WebSocketServer::onClientError(QAbstractSocket::SocketError error)
 void WebSocketServer::onAcceptError(QAbstractSocket::SocketError error)
 {
     qCWarning(dcWebSocketServer()) << "Server accept error occurred:" << error << m_server->errorString();
+    // Note: Qt has paused accepting connections, try again in a moment
+    QTimer::singleShot(100, m_server, [this](){
+        if (m_server->isListening())
+            m_server->resumeAccepting();
+    });
 }
 
 void WebSocketServer::onServerError(QWebSocketProtocol::CloseCode closeCode)
-- 
2.43.0


From 62c47160a23fbc757fdecefefb06a83508a1aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:25 +0000
Subject: [PATCH 30/30] fix: listen again on the unix sockets behind an accept
 error

A QLocalServer which can not accept a connection (i.e. no file descriptors
left) closes its socket and removes the file without telling: the tunnel
socket and the monitor socket were gone until the proxy was restarted.
---
 libnymea-remoteproxy/server/monitorserver.cpp    | 14 ++++++++++++++
 libnymea-remoteproxy/server/unixsocketserver.cpp | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/libnymea-remoteproxy/server/monitorserver.cpp b/libnymea-remoteproxy/server/monitorserver.cpp
index 8f4b003..9880f91 100644
--- a/libnymea-remoteproxy/server/monitorserver.cpp
+++ b/libnymea-remoteproxy/server/monitorserver.cpp
@@ -151,6 +151,20 @@ void MonitorServer::startServer()
     }
 
     connect(m_server, &QLocalServer::newConnection, this, &MonitorServer::onMonitorConnected);
+
+    // Note: if a connection can not be accepted (i.e. no file descriptors left), the local server
+    // stops listening and removes its socket without telling. Try to listen again until it works.
+    QTimer *listenTimer = new QTimer(m_server);
+    connect(listenTimer, &QTimer::timeout, this, [this](){
+        if (m_server->isListening() && QFile::exists(m_server->fullServerName()))
+            return;
+
+        qCWarning(dcMonitorServer()) << "Local server error occurred" << m_server->errorString() << "Listen again on" << m_serverName;
+        m_server->close();
+        m_server->listen(m_serverName);
+    });
+    listenTimer->start(1000);
+
     qCDebug(dcMonitorServer()) << "Started successfully on" << m_serverName;
 }
 
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 53ff759..2e27ced 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -28,6 +28,7 @@
 #include "unixsocketserver.h"
 
 #include <QFile>
+#include <QTimer>
 
 #include "loggingcategories.h"
 
@@ -116,6 +117,20 @@ bool UnixSocketServer::startServer()
     }
 
     connect(m_server, &QLocalServer::newConnection, this, &UnixSocketServer::onClientConnected);
+
+    // Note: if a connection can not be accepted (i.e. no file descriptors left), the local server
+    // stops listening and removes its socket without telling. Try to listen again until it works.
+    QTimer *listenTimer = new QTimer(m_server);
+    connect(listenTimer, &QTimer::timeout, this, [this](){
+        if (m_server->isListening() && QFile::exists(m_server->fullServerName()))
+            return;
+
+        qCWarning(dcUnixSocketServer()) << "Local server error occurred" << m_server->errorString() << "Listen again on" << m_socketFileName;
+        m_server->close();
+        m_server->listen(m_socketFileName);
+    });
+    listenTimer->start(1000);
+
     qCDebug(dcUnixSocketServer()) << "Started successfully on" << m_serverName << m_socketFileName;
     return true;
 }
-- 
2.43.0


From be0b8b663e6f68ba1442b4deb1956d4829150862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 01/26] fix: decode each frame from its own bytes and leave the
 receive buffer alone

---
 serialapi/message.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..6aba7ef 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -49,13 +49,18 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 			return length + 2, nil, nil
 		}
 
+		// Use a copy of the frame (with a blank checksum), the callers buffer must be left
+		// as it is and the message must not see the bytes that follow the frame
+		frame := append([]byte{}, data[:length+2]...)
+		frame[length+1] = 0x00
+
 		checksum := data[length+1]
-		checksumData := append(data[1:length+1], byte(0x00))
+		checksumData := frame[1:]
 		if checksum != GenerateChecksum(checksumData) {
 			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(checksumData), length)
 		}
 
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(frame)
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-- 
2.43.0


From 3199c2e692fbb55b7e1f1e6c1d0ef819f18f4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 02/26] fix: decode ACK, NAK and CAN from their single byte
 only

---
 serialapi/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 6aba7ef..56fb292 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -64,7 +64,7 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
-- 
2.43.0


From 09bd20e29bc4c0b61293e4ed6fcdcf59653b6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 03/26] fix: reject serial api frames shorter than their
 announced contents

---
 serialapi/message.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 56fb292..d0eeb03 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -112,6 +112,9 @@ func NewMessage(data []byte) (*Message, error) {
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("Dropping message, too short: %x", data)
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
@@ -119,12 +122,18 @@ func NewMessage(data []byte) (*Message, error) {
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
+		if len(data) < 7 || len(data) < 7+int(data[6]) {
+			return nil, fmt.Errorf("Dropping message, too short: %x", data)
+		}
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(data[7 : 7+int(data[6])])
 	case DiscoveryNodes:
+		if len(data) < 7 || len(data) < 7+int(data[6]) {
+			return nil, fmt.Errorf("Dropping message, too short: %x", data)
+		}
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(data[7 : 7+int(data[6])])
 	case GetNodeProtocolInfo:
 
 		message.Data, err = NewGetNodeProtocolInfo(data[4:])
-- 
2.43.0


From c3436bfd464766bc41612e4c2a4ea40e8b99bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 04/26] fix: reject application commands without class and
 command

---
 serialapi/application_command_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..460f435 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -17,6 +19,10 @@ type FuncApplicationCommandHandler struct {
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
 	f := &FuncApplicationCommandHandler{}
 
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f.Command = commands.ZWaveCommand(data[0])
 	f.Class = data[1]
 
-- 
2.43.0


From 54196d8c85e8ada3ff6874c443a949788a0ef996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 05/26] fix: ignore surplus bytes in the node list reply

---
 serialapi/discovery_nodes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..09847b7 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -19,6 +19,10 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 	}
 
 	for index, bits := range data {
+		if index*8+7 >= len(f.ActiveNodes) {
+			break
+		}
+
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
 		f.ActiveNodes[index*8+1] = bits&0x02 != 0
 		f.ActiveNodes[index*8+2] = bits&0x04 != 0
-- 
2.43.0


From fc606813d9091bdc8a1927f122e21d862fc8149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 06/26] fix: check and close the channel of a send package
 under one lock

---
 connection.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..8d04459 100644
--- a/connection.go
+++ b/connection.go
@@ -45,17 +45,15 @@ type sendPackage struct {
 }
 
 func (sp *sendPackage) Close() {
-	sp.RLock()
+	sp.Lock()
+	defer sp.Unlock()
+
 	if sp.returnChan == nil {
-		sp.RUnlock()
 		return
 	}
-	sp.RUnlock()
 
-	sp.Lock()
 	close(sp.returnChan)
 	sp.returnChan = nil
-	sp.Unlock()
 }
 
 func (sp *sendPackage) IsOpen() bool {
-- 
2.43.0


From a08984eb270d0b533f24d847bbcccfa3b9138cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 07/26] fix: match requests against the bytes of the frame
 only, whatever its size

---
 connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index 8d04459..a435326 100644
--- a/connection.go
+++ b/connection.go
@@ -250,7 +250,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l]) {
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -312,7 +312,7 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// SerialAPI specific
 	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+		logrus.Warnf("Skipping pkg %s, function %x not in %x", c.uuid, c.function, incomming)
 		return false
 	}
 
@@ -322,15 +322,15 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node %x not in %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass %x not in %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, expectedReport %x not in %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -356,7 +356,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From 8b5c7b2b27da631f998a4394275e37dd7b721cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 08/26] fix: wait on the channel that was made for the request,
 and not on a nil answer

---
 connection.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/connection.go b/connection.go
index a435326..f81ae67 100644
--- a/connection.go
+++ b/connection.go
@@ -80,17 +80,19 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan *serialapi.Message)
+	pkg.returnChan = returnChan
 	pkg.timeout = t
 
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return returnChan, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan reports.Report)
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan reports.Report, 1)
+	messages := make(chan *serialapi.Message)
+	pkg.returnChan = messages
 	pkg.timeout = t
 	pkg.expectedReport = er
 
@@ -98,7 +100,10 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range messages {
+			if msg == nil { // The answer could not be decoded
+				continue
+			}
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
-- 
2.43.0


From 8cb65bcc5b1baaa10a79e304bba691032760b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 09/26] fix: hold the lock while the pending commands are
 searched or the current one is reset, and resend the cancelled one

---
 connection.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/connection.go b/connection.go
index f81ae67..fbf3d87 100644
--- a/connection.go
+++ b/connection.go
@@ -178,7 +178,9 @@ func (conn *Connection) Writer() {
 			conn.Unlock()
 
 			<-abort
+			conn.Lock()
 			conn.lastCommand = ""
+			conn.Unlock()
 		}
 	}
 }
@@ -214,8 +216,8 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
+				conn.Lock()
 				for index, c := range conn.inFlight {
-					conn.RLock()
 					if c.uuid == conn.lastCommand {
 						select {
 						case conn.lastResult <- incomming[0]:
@@ -229,15 +231,14 @@ func (conn *Connection) Reader() error {
 						}
 
 						if msg.IsCAN() {
-							go func() {
+							go func(c *sendPackage) {
 								<-time.After(time.Millisecond * 100)
 								conn.send <- c
-							}()
+							}(c)
 						}
 					}
-					conn.RUnlock()
 				}
-
+				conn.Unlock()
 			}
 
 			// The message is not compleatly read yet, wait for some more data
-- 
2.43.0


From fa60c812bc31bc37f48417e51c700c9cb7772c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 10/26] fix: keep one writer over reconnects, and the old port
 when the new one can not be opened

---
 connection.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index fbf3d87..821cbb2 100644
--- a/connection.go
+++ b/connection.go
@@ -22,6 +22,7 @@ type Connection struct {
 	send        chan *sendPackage
 	lastCommand string // Uuid of last sent command
 	lastResult  chan byte
+	startWriter sync.Once
 
 	reportCallback func(byte, reports.Report)
 
@@ -122,7 +123,7 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		conn.Connected = false
 	}()
 
-	conn.readWriteCloser, err = conn.portOpener.Open()
+	port, err := conn.portOpener.Open()
 
 	if err != nil {
 		select {
@@ -132,6 +133,10 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		return
 	}
 
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.Unlock()
+
 	go func() {
 		<-time.After(time.Millisecond * 200)
 		logrus.Debug("Connected")
@@ -142,7 +147,9 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		conn.Connected = true
 	}()
 
-	go conn.Writer()
+	conn.startWriter.Do(func() { // There is one writer, it survives a reconnect
+		go conn.Writer()
+	})
 	return conn.Reader()
 }
 
-- 
2.43.0


From 91ced69835e0005323d498103c7e4a98cd765c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 11/26] fix: time spent delivering an answer does not discard a
 partially received frame

The receiver forgets an incomplete frame when the next bytes take more than
40 ms. The time was measured from the last append, so up to a second of
waiting for a requester counted as a pause of the line and a frame whose
second half was already there was lost. Measure the time waited for data.
---
 connection.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index 821cbb2..82902e1 100644
--- a/connection.go
+++ b/connection.go
@@ -194,11 +194,11 @@ func (conn *Connection) Writer() {
 
 func (conn *Connection) Reader() error {
 	incomming := make([]byte, 0)
-	age := time.Now()
 
 	for {
 		buf := make([]byte, 128)
 
+		age := time.Now()
 		n, err := conn.readWriteCloser.Read(buf)
 		if err != nil {
 			logrus.Error("Serial read failed: ", err)
@@ -208,13 +208,12 @@ func (conn *Connection) Reader() error {
 
 		//fmt.Println(hex.Dump(buf[:n]))
 
-		// If data in buffer is older than 40ms, clear buffer before appending data
+		// If the rest of an incomplete message did not arrive within 40ms, clear buffer before appending data
 		if time.Now().Sub(age) > (time.Millisecond * 40) {
 			incomming = make([]byte, 0)
 		}
 
 		incomming = append(incomming, buf[:n]...)
-		age = time.Now()
 
 		for len(incomming) > 0 {
 			l, msg, err := serialapi.Decode(incomming)
-- 
2.43.0


From a075b28a00f3bca38e5d079dbba237b419bf5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 12/26] fix: lookups and snapshots of the node list use the
 list's own lock, a snapshot is a copy

---
 nodes/list.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nodes/list.go b/nodes/list.go
index 297f673..7087698 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,19 +37,20 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+// All returns a copy of the list, later changes of the list do not show in it
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	all := make(map[int]*Node, len(l.nodes))
+	for k, v := range l.nodes {
+		all[k] = v
 	}
 
-	return l.nodes
+	return all
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
 
@@ -67,7 +68,7 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
+func (l *List) MarshalJSON() ([]byte, error) {
 	s := make(map[string]*Node)
 
 	for k, v := range l.All() {
-- 
2.43.0


From a8948edd5100d917ff2604e020bbdbfd33d00de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 13/26] fix: look up an endpoint by its number, nil when there
 is none

---
 nodes/endpoints.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..1f8ce10 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,11 +23,16 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
-	if id > len(n.Endpoints) {
-		return nil
+	n.RLock()
+	defer n.RUnlock()
+
+	for _, e := range n.Endpoints {
+		if e != nil && e.Id == id {
+			return e
+		}
 	}
 
-	return n.Endpoints[id]
+	return nil
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
-- 
2.43.0


From caafd42af1679fc99a8942572aadb9ec767a5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 14/26] fix: create the last of the reported endpoints too

---
 nodes/request_endpoints.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..d46958a 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -51,7 +51,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From 52121f2e7d43f1580c24ae302b1c6ab081cddcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 15/26] fix: a failed request for endpoints or states is
 retried instead of waiting for ever

---
 nodes/request_endpoints.go | 5 ++++-
 nodes/request_states.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index d46958a..0220449 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -39,7 +39,10 @@ func (n *Node) RequestEndpoints() error {
 	fmt.Println("")
 	logrus.Debugf("Request endpoint %d", n.Id)
 
-	t, _ := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x08) // Request node information
+	t, err := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x08) // Request node information
+	if err != nil {
+		return err
+	}
 	report := <-t
 
 	logrus.Debugf("Request endpoint %d report: %#v", n.Id, report)
diff --git a/nodes/request_states.go b/nodes/request_states.go
index 32050e6..8eea04b 100644
--- a/nodes/request_states.go
+++ b/nodes/request_states.go
@@ -40,7 +40,10 @@ func (n *Node) RequestStates() error {
 				//0x23, // Callback?
 			})
 			cmd.SetNode(n.Id)
-			t, _ := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x02) // Wait for SupportedReport (0x02)
+			t, err := n.connection.WriteAndWaitForReport(cmd, time.Second*2, 0x02) // Wait for SupportedReport (0x02)
+			if err != nil {
+				return err
+			}
 
 			report := <-t
 			//for k, v := range report.sensors {
-- 
2.43.0


From 18dfd0529c5f3efaf86a3259f3bee073784b3df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 16/26] fix: a wake-up while the node starts to wait for it is
 not lost

---
 nodes/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 5771623..5c64521 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -67,6 +67,9 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 }
 
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
-- 
2.43.0


From c64eda0f6335c707d7c453a6f6e382d062d7f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 17/26] fix: identification does not lose the command classes
 of the device again

---
 nodes/node.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 5c64521..294f6b3 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -177,9 +177,16 @@ func (n *Node) Identify() {
 
 		// set basic commandClasses
 		classes := database.GetMandatoryCommandClasses(n.ProtocolInfo().Generic, n.ProtocolInfo().Specific)
+		classes = classes[:len(classes):len(classes)] // Appending must not change the definitions
 
 		n.Lock()
 		n.CommandClasses = classes
+		if n.ManufacurerSpecific != nil { // Keep the classes of an already known device
+			dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
+			if dev != nil {
+				n.CommandClasses = append(n.CommandClasses, dev.CommandClasses...)
+			}
+		}
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
-- 
2.43.0


From de5294020e061d84125975b0b5bfb71dff1ec94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 18/26] fix: set a discovered node up before it becomes visible
 to others

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 841c7c3..2e6c0b4 100644
--- a/controller.go
+++ b/controller.go
@@ -79,12 +79,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent)
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
-- 
2.43.0


From 175c4873e6ca676b5bf9bba2dd0a62edd70a2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 19/26] fix: a configuration file with missing parts is no
 reason to crash

---
 controller.go |  3 +++
 nodes/list.go | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/controller.go b/controller.go
index 2e6c0b4..0e67a96 100644
--- a/controller.go
+++ b/controller.go
@@ -184,6 +184,9 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 	if err = jsonParser.Decode(&controller); err != nil {
 		return nil, err
 	}
+	if controller == nil || controller.Nodes == nil {
+		return nil, fmt.Errorf("no nodes in %s", c.filename)
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index 7087698..ed7a730 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -28,8 +28,10 @@ func (l *List) Add(node *Node) {
 
 	node.Lock()
 	//node.connection = l.connection
-	for k, _ := range node.Endpoints {
-		node.Endpoints[k].node = node
+	for _, e := range node.Endpoints {
+		if e != nil {
+			e.node = node
+		}
 	}
 	node.Unlock()
 
@@ -86,6 +88,18 @@ func (l *List) UnmarshalJSON(data []byte) error {
 	}
 
 	for _, v := range s {
+		if v == nil {
+			continue
+		}
+
+		// Values missing in the file
+		if v.StateBool == nil {
+			v.StateBool = make(map[string]bool)
+		}
+		if v.StateFloat == nil {
+			v.StateFloat = make(map[string]float64)
+		}
+
 		l.Add(v)
 	}
 
-- 
2.43.0


From c593d2e5490e39bd67da988f6a06cc5d17757f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 20/26] fix: a save that fails or is interrupted does not
 destroy the configuration file

---
 controller.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/controller.go b/controller.go
index 0e67a96..b326960 100644
--- a/controller.go
+++ b/controller.go
@@ -1,7 +1,6 @@
 package gozwave
 
 import (
-	"bytes"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -22,6 +21,7 @@ type Controller struct {
 	eventQue   chan interface{}
 
 	filename        string
+	saving          sync.Mutex // One save at a time
 	triggerFileSave chan struct{}
 
 	sync.RWMutex
@@ -132,6 +132,9 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 }
 
 func (c *Controller) SaveConfigurationToFile() error {
+	c.saving.Lock()
+	defer c.saving.Unlock()
+
 	controller, err := c.loadConfigurationFromFile()
 	if err == nil {
 		if reflect.DeepEqual(c, controller) {
@@ -139,22 +142,32 @@ func (c *Controller) SaveConfigurationToFile() error {
 		}
 	}
 
-	configFile, err := os.Create(c.filename)
-	if err != nil {
-		logrus.Error("creating config file", err.Error())
-	}
-	defer configFile.Close()
-
 	logrus.Info("Save config: ", c.filename)
-	var out bytes.Buffer
 	b, err := json.MarshalIndent(c, "", "\t")
 	if err != nil {
 		logrus.Error("error marshal json", err)
+		return err
 	}
-	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
 
-	return nil
+	// Write a new file and replace the old one when it is complete, so that there is always a complete file
+	configFile, err := os.Create(c.filename + ".new")
+	if err != nil {
+		logrus.Error("creating config file", err.Error())
+		return err
+	}
+	_, err = configFile.Write(b)
+	if err == nil {
+		err = configFile.Sync()
+	}
+	if cerr := configFile.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		logrus.Error("writing config file", err.Error())
+		return err
+	}
+
+	return os.Rename(c.filename+".new", c.filename)
 }
 func (c *Controller) LoadConfigurationFromFile() error {
 	controller, err := c.loadConfigurationFromFile()
-- 
2.43.0


From 0c3275e68cb884e91d44453a6d122d830ee5d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 21/26] fix: saving reads the nodes under their locks

---
 controller.go | 15 ++++++---------
 nodes/node.go | 10 ++++++++++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/controller.go b/controller.go
index b326960..6f0ab3e 100644
--- a/controller.go
+++ b/controller.go
@@ -1,10 +1,10 @@
 package gozwave
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -135,20 +135,17 @@ func (c *Controller) SaveConfigurationToFile() error {
 	c.saving.Lock()
 	defer c.saving.Unlock()
 
-	controller, err := c.loadConfigurationFromFile()
-	if err == nil {
-		if reflect.DeepEqual(c, controller) {
-			return nil
-		}
-	}
-
-	logrus.Info("Save config: ", c.filename)
 	b, err := json.MarshalIndent(c, "", "\t")
 	if err != nil {
 		logrus.Error("error marshal json", err)
 		return err
 	}
 
+	if old, err := os.ReadFile(c.filename); err == nil && bytes.Equal(old, b) {
+		return nil
+	}
+	logrus.Info("Save config: ", c.filename)
+
 	// Write a new file and replace the old one when it is complete, so that there is always a complete file
 	configFile, err := os.Create(c.filename + ".new")
 	if err != nil {
diff --git a/nodes/node.go b/nodes/node.go
index 294f6b3..6308857 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -1,6 +1,7 @@
 package nodes
 
 import (
+	"encoding/json"
 	"strings"
 	"sync"
 	"time"
@@ -147,6 +148,15 @@ func (n *Node) ProcessEvent(event reports.Report) {
 
 }
 
+// MarshalJSON encodes the node while nobody changes it
+func (n *Node) MarshalJSON() ([]byte, error) {
+	n.RLock()
+	defer n.RUnlock()
+
+	type node Node
+	return json.Marshal((*node)(n))
+}
+
 func (n *Node) GetID() int {
 	n.RLock()
 	defer n.RUnlock()
-- 
2.43.0


From e79e988a73991cb11b33be6d33ffa4bcfa914532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 22/26] fix: the recorder keeps a private copy of the
 transferred bytes

---
 serialrecorder/serialrecorder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..c8a6265 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -38,13 +38,13 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	go sr.writeToLog(DirectionRead, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	go sr.writeToLog(DirectionWrite, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
 
-- 
2.43.0


From 478e27ef7ff526d5ed992249da097b73426fae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 23/26] fix: reopening the port does not start a second log
 stream

---
 serialrecorder/serialrecorder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index c8a6265..72e13a4 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -16,7 +17,8 @@ type serialRecorder struct {
 	baud   int
 	Logger io.Writer
 
-	writeBuffer chan *Row
+	writeBuffer    chan *Row
+	startLogWriter sync.Once
 }
 
 // Row logs one serial read or write
@@ -71,7 +73,9 @@ func (sr *serialRecorder) Close() error {
 	return sr.serial.Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	sr.startLogWriter.Do(func() { // One encoder, it survives a reopened port
+		go sr.logWriter()
+	})
 
 	var err error
 	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-- 
2.43.0


From 5b1b8df46baaccf662d14beecc0e6a4ebce68b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 24/26] fix: print the last recorded rows too

---
 .../serialrecordingtohex.go                   | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..13914c9 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,6 +76,14 @@ func main() {
 		}
 	}
 
+	// Include the last rows
+	for _, l := range []*logRowCombiner{&reads, &writes} {
+		c := l.flush()
+		if c != nil {
+			combinedRows = append(combinedRows, *c)
+		}
+	}
+
 	// Sort the rows and print them out
 	sort.Sort(combinedRows)
 	for _, v := range combinedRows {
@@ -139,3 +147,20 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 
 	return combinedRow
 }
+
+// flush returns what is still in the buffer, nil if there is nothing
+func (l *logRowCombiner) flush() *row {
+	if len(l.buf) == 0 {
+		return nil
+	}
+
+	combinedRow := &row{
+		Timestamp: l.prev.Timestamp,
+		Direction: l.prev.Direction,
+		Data:      l.buf,
+	}
+
+	l.buf = nil
+
+	return combinedRow
+}
-- 
2.43.0


From c1f487e6d9eb372224489894b8c72a3e24e55ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 25/26] fix: combining rows does not write behind a row's data

---
 cmd/serialrecordingtohex/serialrecordingtohex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index 13914c9..c4dcd82 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -142,7 +142,7 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 		Data:      l.buf,
 	}
 
-	l.buf = r.Data
+	l.buf = append([]byte(nil), r.Data...) // Appending must not write behind the data of the row
 	l.prev = r
 
 	return combinedRow
-- 
2.43.0


From 8353ca85e2ca021cb908d7d89ad6ddd1087e0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 26/26] fix: do not combine a row with one recorded long after
 it

---
 cmd/serialrecordingtohex/serialrecordingtohex.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index c4dcd82..bdc500a 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -129,8 +129,8 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 	// Calculate the duration from the last row
 	duration := r.Timestamp.Sub(l.prev.Timestamp)
 
-	// If duration is short, just add it to the buffer
-	if duration < time.Millisecond {
+	// If duration is short, just add it to the buffer. The rows may be slightly out of order
+	if duration.Abs() < time.Millisecond {
 		l.buf = append(l.buf, r.Data...)
 		l.prev = r
 		return nil
-- 
2.43.0


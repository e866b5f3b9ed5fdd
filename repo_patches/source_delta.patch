From bb8384ea3ca8091b64d0e74b0324862db6edeb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 01/33] fix: keep transactions apart when replies are late or
 duplicated

Send blocked on an unbuffered channel that Put closed, so that a second or
late reply crashed the process with a send on a closed channel, and the
pooled state let a waiting Send hand its data to the next transaction.
---
 tsm/transactions.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/tsm/transactions.go b/tsm/transactions.go
index e892593..eb0246e 100644
--- a/tsm/transactions.go
+++ b/tsm/transactions.go
@@ -21,6 +21,7 @@ type state struct {
 	state        int
 	requestTimer int
 	data         chan interface{}
+	done         chan struct{} // closed when the transaction ends
 }
 
 // TSM is the transaction state manager. It handles passing data to other
@@ -39,8 +40,8 @@ type TSM struct {
 func New(size int) *TSM {
 	t := &TSM{
 		states: make(map[int]*state), pool: sync.Pool{
-			// Operation doesn't include a new channel. We want that done when a get is
-			// done since we close all channels when putting into the pool.
+			// Operation doesn't include new channels. We want that done when a get is
+			// done since a transaction must never see the channels of another one.
 			New: func() interface{} {
 				s := new(state)
 				return s
@@ -63,26 +64,36 @@ func New(size int) *TSM {
 	return t
 }
 
-// Send data to invoked id
-func (t *TSM) Send(id int, b interface{}) error {
+// channels returns the channels of the transaction that currently holds the id.
+func (t *TSM) channels(id int) (data chan interface{}, done chan struct{}, ok bool) {
 	t.mutex.Lock()
+	defer t.mutex.Unlock()
 	s, ok := t.states[id]
-	t.mutex.Unlock()
+	if !ok {
+		return nil, nil, false
+	}
+	return s.data, s.done, true
+}
 
+// Send data to invoked id. It waits until the data has been received or the
+// transaction has ended.
+func (t *TSM) Send(id int, b interface{}) error {
+	data, done, ok := t.channels(id)
 	if !ok {
 		return fmt.Errorf("id %d is not receiving", id)
 	}
-	s.data <- b
-	return nil
+	select {
+	case data <- b:
+		return nil
+	case <-done:
+		return fmt.Errorf("id %d is no longer receiving", id)
+	}
 }
 
 // Receive attempts to receive a byte array from the invoked id. If a time out
 // period has passed then an error is returned
 func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
-	t.mutex.Lock()
-	s, ok := t.states[id]
-	t.mutex.Unlock()
-
+	data, done, ok := t.channels(id)
 	if !ok {
 		return nil, fmt.Errorf("id %d is not sending", id)
 	}
@@ -92,8 +103,10 @@ func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
 
 	// Wait for data
 	select {
-	case b := <-s.data:
+	case b := <-data:
 		return b, nil
+	case <-done:
+		return nil, fmt.Errorf("id %d is no longer sending", id)
 	case <-ctx.Done():
 		return nil, fmt.Errorf("receive timed out (%v)", timeout)
 	}
@@ -121,6 +134,7 @@ func (t *TSM) ID(ctx context.Context) (int, error) {
 	s.state = idle
 	s.requestTimer = 0 // TODO: apdu_timeout
 	s.data = make(chan interface{})
+	s.done = make(chan struct{})
 
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
@@ -138,7 +152,7 @@ func (t *TSM) Put(id int) error {
 		return fmt.Errorf("id %d does not exist in the transactions", id)
 	}
 
-	close(s.data)
+	close(s.done)
 	t.pool.Put(s)
 	t.free.id <- id
 	t.free.space <- struct{}{}
-- 
2.43.0


From 98101aab81c37de93e63c6154b516b5d45ecb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 02/33] fix: publishing to a subscription never blocks

Publish held the manager's and the subscriber's lock while it sent into a
channel of capacity one; a burst of answers, or one arriving just as the
subscription ended, blocked every publisher and subscriber for good, and an
answer published as the timer fired was lost.
---
 utsm/subscriber.go | 41 ++++++++++++++++++++++++++++++++++++-----
 utsm/utsm.go       |  7 ++-----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index f77099e..9f21001 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -13,8 +13,11 @@ type subscriber struct {
 	timeout             time.Duration
 	lastReceivedTimeout time.Duration
 	lastReceived        time.Time
-	// Data channel is used for data transfer between subscriber and publisher
-	data  chan interface{}
+	// queue holds what has been published until the subscriber picks it up
+	queue []interface{}
+	// Data channel is used by the publisher to tell the subscriber about new
+	// entries in the queue
+	data  chan struct{}
 	mutex *sync.Mutex
 }
 
@@ -50,6 +53,28 @@ func (s *subscriber) getTimeout() time.Duration {
 }
 
 // Subscribe receives data meant for ids that fall between the start and end range.
+// push queues data for the subscriber. It never waits for the subscriber.
+func (s *subscriber) push(data interface{}) {
+	s.mutex.Lock()
+	s.lastReceived = time.Now()
+	s.queue = append(s.queue, data)
+	s.mutex.Unlock()
+	select {
+	case s.data <- struct{}{}:
+	default:
+		// the subscriber has been told already
+	}
+}
+
+// take returns everything that has been queued since the last call.
+func (s *subscriber) take() []interface{} {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	queue := s.queue
+	s.queue = nil
+	return queue
+}
+
 func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]interface{}, error) {
 	var store []interface{}
 	s := m.newSubscriber(start, end, options)
@@ -60,13 +85,19 @@ func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]
 
 	for {
 		c, can := context.WithTimeout(ctx, s.getTimeout())
-		defer can()
 
 		select {
 		case <-c.Done():
+			can()
+			store = append(store, s.take()...)
+			// Something may have been published while the timer expired
+			if ctx.Err() == nil && s.getTimeout() > 0 {
+				continue
+			}
 			return store, nil
-		case b := <-s.data:
-			store = append(store, b)
+		case <-s.data:
+			can()
+			store = append(store, s.take()...)
 		}
 	}
 }
diff --git a/utsm/utsm.go b/utsm/utsm.go
index 3d34da3..3a9b16b 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -64,10 +64,7 @@ func (m *Manager) Publish(id int, data interface{}) {
 
 	for _, s := range m.subs {
 		if id >= s.start && id <= s.end {
-			s.mutex.Lock()
-			s.lastReceived = time.Now()
-			s.data <- data
-			s.mutex.Unlock()
+			s.push(data)
 		}
 	}
 }
@@ -77,7 +74,7 @@ func (m *Manager) newSubscriber(start int, end int, options []SubscriberOption)
 		start:        start,
 		end:          end,
 		lastReceived: time.Now(),
-		data:         make(chan interface{}, 1),
+		data:         make(chan struct{}, 1),
 		mutex:        &sync.Mutex{},
 	}
 	m.mutex.Lock()
-- 
2.43.0


From 8afe3d8ed6711cf1cf73421482b62c3d629ee6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 03/33] fix: discovery does not miss answers that arrive at
 once

---
 utsm/subscriber.go | 17 +++++++++++++++++
 whatnetwork.go     | 17 +++++------------
 whois.go           | 16 +++++-----------
 whoisrouter.go     | 17 +++++------------
 4 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index 9f21001..11bbf20 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -76,10 +76,27 @@ func (s *subscriber) take() []interface{} {
 }
 
 func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]interface{}, error) {
+	return m.SubscribeAfter(start, end, nil, options...)
+}
+
+// SubscribeAfter subscribes like Subscribe and runs the request once the
+// subscription is known to the publishers, so that no answer to the request is
+// missed. An error of the request ends the subscription at once.
+func (m *Manager) SubscribeAfter(start int, end int, request func() error, options ...SubscriberOption) ([]interface{}, error) {
 	var store []interface{}
 	s := m.newSubscriber(start, end, options)
 	defer m.removeSubscriber(s)
 
+	if request != nil {
+		if err := request(); err != nil {
+			return nil, err
+		}
+		// The first answer is waited for from now on
+		s.mutex.Lock()
+		s.lastReceived = time.Now()
+		s.mutex.Unlock()
+	}
+
 	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
 	defer cancel()
 
diff --git a/whatnetwork.go b/whatnetwork.go
index 28b5f5c..d090afe 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -17,7 +17,6 @@ in bacnet.handleMsg() the npdu.IsNetworkLayerMessage is always rejected so this
 */
 
 func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -32,21 +31,15 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 		HopCount:       btypes.DefaultHopCount,
 	}
 	enc.NPDU(npdu)
-	// Run in parallel
-	errChan := make(chan error)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	// Subscribe before the request goes out, answers may arrive at once
+	values, err := c.utsm.SubscribeAfter(1, 65534, func() error { //65534 is the max number a network can be
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+		return err
+	})
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-	err = <-errChan
-	if err != nil {
-
-	}
 
 	for _, v := range values {
 		r, ok := v.(btypes.NPDU)
diff --git a/whois.go b/whois.go
index 95888b1..59e2cda 100644
--- a/whois.go
+++ b/whois.go
@@ -57,17 +57,11 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		start = low
 		end = high
 	}
-	// Run in parallel
-	errChan := make(chan error)
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(start, end)
-	if err != nil {
-		return nil, err
-	}
-	err = <-errChan
+	// Subscribe before the request goes out, answers may arrive at once
+	values, err := c.utsm.SubscribeAfter(start, end, func() error {
+		_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+		return err
+	})
 	if err != nil {
 		return nil, err
 	}
diff --git a/whoisrouter.go b/whoisrouter.go
index 3f225c2..2d5fd89 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -12,7 +12,6 @@ Is in beta
 */
 
 func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -27,20 +26,14 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 		HopCount:       btypes.DefaultHopCount,
 	}
 	enc.NPDU(npdu)
-	// Run in parallel
-	errChan := make(chan error)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	// Subscribe before the request goes out, answers may arrive at once
+	values, err := c.utsm.SubscribeAfter(1, 65534, func() error { //65534 is the max number a network can be
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+		return err
+	})
 	if err != nil {
 		fmt.Println(`err`, err)
-	}
-	err = <-errChan
-	if err != nil {
-
 	}
 	var list []btypes.Address
 	for _, addresses := range values {
-- 
2.43.0


From 015eae7bc4874e88fdd22d679ac7bea0ecb93f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 04/33] fix: report the class and code a device's Error carries

---
 encoding/apdu.go    | 16 +++++-----------
 encoding/general.go |  2 +-
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..e6239ca 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -123,18 +123,12 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 			return &ErrorWrongTagType{ClosingTag}
 		}
 	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
-
+		// The tag that was read belongs to the error class
+		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(d.value(meta))))
+		_, _, value := d.tagNumberAndValue()
+		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
 	}
-	return nil
+	return d.Error()
 }
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..b987fe5 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -51,7 +51,7 @@ func (t *tagMeta) setOpening() {
 }
 
 func (t *tagMeta) isOpening() bool {
-	return ((*t & openingMask) == openingMask)
+	return ((*t & tagMask) == openingMask)
 }
 
 func (t *tagMeta) Clear() {
-- 
2.43.0


From 54304ed271413e7c6fdf652adf35016aa76e429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 05/33] fix: decode malformed values without panics, endless
 loops or huge allocations

---
 encoding/appdata.go         |  2 +-
 encoding/date.go            | 10 +++------
 encoding/decoder.go         | 44 +++++++++++++++++++++++++++----------
 encoding/readmultipleack.go | 39 ++++++++++++++++----------------
 encoding/string.go          |  9 ++++----
 5 files changed, 62 insertions(+), 42 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..c005ac3 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -133,7 +133,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	switch tag {
 	case tagNull:
-		return null.Null{}, nil
+		return null.Null{}, d.Error()
 	case tagBool:
 		// Originally this was in C so non 0 values are considered
 		// true
diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..5de0f36 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -46,11 +46,7 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 	if length <= 0 {
 		return
 	}
-	data := make([]byte, length)
-	_, d.err = d.Read(data)
-	if d.err != nil {
-		return
-	}
+	data := d.take(length)
 	if len(data) < 4 {
 		return
 	}
@@ -78,8 +74,8 @@ func (d *Decoder) time(t *btypes.Time, length int) {
 	if length <= 0 {
 		return
 	}
-	data := make([]byte, length)
-	if _, d.err = d.Read(data); d.err != nil {
+	data := d.take(length)
+	if len(data) < 4 {
 		return
 	}
 
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..26440fe 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,7 +3,9 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
+	"io"
 )
 
 // Decoder used
@@ -39,10 +41,23 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	d.take(int(n))
 	return d.err
 }
 
+// take reads the next n bytes. Lengths come from the network, so nothing is
+// allocated for one that is larger than what is left in the buffer.
+func (d *Decoder) take(n int) []byte {
+	if d.err != nil {
+		return nil
+	}
+	if n < 0 || n > d.len() {
+		d.err = io.ErrUnexpectedEOF
+		return nil
+	}
+	return append([]byte{}, d.buff.Next(n)...)
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -144,21 +159,22 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
+		if d.err == nil && length != 0 {
+			d.err = fmt.Errorf("unsupported unsigned length %d", length)
+		}
 		return 0
 	}
 }
 
 func (d *Decoder) signed24() int32 {
-	var a, b, c int8
+	var a int8
+	var b, c uint8
 	d.decode(&a)
 	d.decode(&b)
 	d.decode(&c)
 
-	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
-	x |= int32((int32(b) << 8) & 0x0000ff00)
-	x |= int32(int32(c) & 0x000000ff)
-	return x
+	// The sign is in the first byte
+	return int32(a)<<16 | int32(b)<<8 | int32(c)
 }
 
 func (d *Decoder) signed(length int) int32 {
@@ -178,21 +194,27 @@ func (d *Decoder) signed(length int) int32 {
 		d.decode(&val)
 		return val
 	default:
+		if d.err == nil && length != 0 {
+			d.err = fmt.Errorf("unsupported signed length %d", length)
+		}
 		return 0
 	}
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
-	if length <= 0 {
+	// The first byte is the number of unused bits, it is always there
+	if d.err == nil && (length <= 0 || length-1 > btypes.MaxBitStringBytes) {
+		d.err = fmt.Errorf("unsupported bit string length %d", length)
+	}
+	data := d.take(length)
+	if d.err != nil {
 		return nil
 	}
-	data := make([]uint8, length)
-	d.decode(data)
 	//refer to  https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacdcode.c#L672
 	bs := btypes.NewBitString(length - 1)
 	/* the lower 3 bits of the first byte contains the unused bits in the remain bytes and the remain bytes contain the bit masks*/
 	bytesUsed := uint8(length - 1)
-	if bytesUsed <= btypes.MaxBitStringBytes {
+	if bytesUsed > 0 {
 		for i := uint8(0); i < bytesUsed; i++ {
 			//index of data start from 1
 			bs.SetByte(i, byteReverseBits(data[i+1]))
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..d67ebe4 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -150,19 +150,27 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			// Tag 4 - Opening Tag
 			if tag == 4 && meta.isOpening() {
 				var array []interface{}
-				tag, meta = d.tagNumber()
-				if d.err != nil {
-					return d.err
-				}
+				// Constructed values bring opening and closing tags of their own
+				depth := 0
 				for {
+					tag, meta = d.tagNumber()
+					if d.err != nil {
+						return d.err
+					}
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
-							_ = d.UnreadByte()
+							if depth == 0 {
+								break
+							}
+							depth--
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
 								for {
 									tag, meta, length = d.tagNumberAndValue()
+									if d.err != nil {
+										return d.err
+									}
 									if meta.isClosing() && tag == btypes.TimeStampDatetime {
 										break
 									} else if tag == tagDate {
@@ -174,20 +182,17 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 									}
 								}
 								array = append(array, dt)
+							} else {
+								depth++
 							}
 						} else {
 							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
 							lenValue := d.value(meta)
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
 								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
+								if err := d.Skip(lenValue); err != nil {
+									return err
 								}
 							} else {
 								data, err := d.AppDataOfTag(tag, int(lenValue))
@@ -204,13 +209,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 						}
 						array = append(array, data)
 					}
-					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
+				}
+				if tag != 4 {
+					return &ErrorIncorrectTag{Expected: 4, Given: tag}
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..dbc3f1e 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -38,8 +38,10 @@ func (d *Decoder) string(s *string, len int) error {
 	default:
 		return fmt.Errorf("unsupported string format %d", t)
 	}
-	b := make([]byte, len)
-	d.decode(b)
+	b := d.take(len)
+	if d.err != nil {
+		return d.err
+	}
 
 	if t == characterUCS2 {
 		out, err := decodeUCS2(string(b))
@@ -58,6 +60,5 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
-	*b = make([]byte, len)
-	d.decode(b)
+	*b = d.take(len)
 }
-- 
2.43.0


From 7b1b1ff4b9cef21f6c13c637fe8ba2138a49dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 06/33] fix: dates count from 1900 and keep an unspecified year

---
 encoding/date.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 5de0f36..0c20ed9 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -3,9 +3,9 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 // epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
-// limit
-const epochYear = 1990
+// the standard (20.2.12: year minus 1900). Why? No idea. God help us all if
+// bacnet hits the 255 + 1900 limit
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
@@ -51,7 +51,7 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
-	if dt.Year != btypes.UnspecifiedTime {
+	if data[0] != notDefined {
 		dt.Year = int(data[0]) + epochYear
 	} else {
 		dt.Year = int(data[0])
-- 
2.43.0


From 88c22a3205ea5ba4fa8f9f6fca1fc2fb66e6edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 07/33] fix: encode doubles, signed integers and write
 priorities as the standard asks, refuse what cannot be encoded

---
 encoding/appdata.go  |  8 +++-----
 encoding/encoder.go  | 22 ++++++++++++++++++++++
 encoding/general.go  | 13 +++++++++++++
 encoding/readprop.go |  7 ++++++-
 writeprop.go         |  6 +++---
 5 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index c005ac3..cb78d3d 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -74,7 +74,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
@@ -93,7 +92,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
@@ -106,10 +105,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..44c0c2b 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -117,6 +118,12 @@ func (e *Encoder) tag(tg tagInfo) {
 /* from clause 20.2.14 Encoding of an Object Identifier Value
 returns the number of apdu bytes consumed */
 func (e *Encoder) objectId(objectType btypes.ObjectType, instance btypes.ObjectInstance) {
+	if uint32(objectType) > MaxObject || uint32(instance) > MaxInstance {
+		if e.err == nil {
+			e.err = fmt.Errorf("object %d:%d is out of range", objectType, instance)
+		}
+		return
+	}
 	var value uint32
 	value = ((uint32(objectType) & MaxObject) << InstanceBits) | (uint32(instance) & MaxInstance)
 	e.write(value)
@@ -156,6 +163,19 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+func (e *Encoder) signed(value int32) {
+	switch signedLength(value) {
+	case size8:
+		e.write(int8(value))
+	case size16:
+		e.write(int16(value))
+	case size24:
+		e.unsigned24(uint32(value))
+	default:
+		e.write(value)
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
@@ -192,6 +212,8 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			e.AppData(prop.Data, false)
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
+			// Tag 3 (OPTIONAL) - Priority
+			tag = 3
 			if prop.Priority != btypes.Normal {
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
diff --git a/encoding/general.go b/encoding/general.go
index b987fe5..490ea02 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -14,6 +14,19 @@ func valueLength(value uint32) int {
 	return size32
 }
 
+// signedLength is the number of bytes value needs as a two's complement number
+func signedLength(value int32) int {
+	switch {
+	case value >= -0x80 && value < 0x80:
+		return size8
+	case value >= -0x8000 && value < 0x8000:
+		return size16
+	case value >= -0x800000 && value < 0x800000:
+		return size24
+	}
+	return size32
+}
+
 /* from clause 20.2.1.3.2 Constructed Data */
 /* true if the tag is an opening tag */
 func isOpeningTag(x uint8) bool {
diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..a8e7eb0 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -8,6 +8,9 @@ import (
 
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
+	if len(data.Object.Properties) == 0 {
+		return 0, fmt.Errorf("no property was given")
+	}
 	if err := isValidObjectType(data.Object.ID.Type); err != nil {
 		return 0, err
 	}
@@ -44,7 +47,9 @@ func (e *Encoder) ReadProperty(invokeID uint8, data btypes.PropertyData) error {
 		SegmentedMessage: false,
 	}
 	e.APDU(a)
-	e.readPropertyHeader(initialTagPos, &data)
+	if _, err := e.readPropertyHeader(initialTagPos, &data); err != nil {
+		return err
+	}
 	return e.Error()
 }
 
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..e262b0a 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -28,9 +28,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.WriteProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 	// the value filled doesn't matter. it just needs to be non nil
 	err = fmt.Errorf("go")
-- 
2.43.0


From 0dc863dcdaf58b16b947e5e8e1079bd8b8c4c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 08/33] fix: decode every network of an I-Am-Router-To-Network

---
 encoding/npdu.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..64ce822 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -104,7 +104,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
@@ -116,14 +116,17 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 			var nets []btypes.Address
 			d.decode(&n.Source.Net) //decode the first network
 			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
+			for d.Error() == nil && d.len() > 0 {
 				d.decode(&n.Source.Net)
+				known := false
 				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
+					if adr.Net == n.Source.Net { //make sure that a network is only added once
+						known = true
 					}
 				}
+				if !known {
+					nets = append(nets, *n.Source)
+				}
 			}
 			addr = nets
 		}
-- 
2.43.0


From df0622ff1af5c60ae426fb13b84b503100266563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:00 +0000
Subject: [PATCH 09/33] fix: WhoIs leaves the caller's options alone

---
 whois.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whois.go b/whois.go
index 59e2cda..8229fc2 100644
--- a/whois.go
+++ b/whois.go
@@ -22,8 +22,9 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	enc := encoding.NewEncoder()
 	low := wh.Low
 	high := wh.High
+	networkNumber := wh.NetworkNumber
 	if wh.GlobalBroadcast {
-		wh.NetworkNumber = btypes.GlobalBroadcast //65535
+		networkNumber = btypes.GlobalBroadcast //65535
 	}
 	if low <= 0 {
 		low = 0
@@ -32,7 +33,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		high = 4194304 //max dev id
 	}
 
-	dest.Net = wh.NetworkNumber
+	dest.Net = networkNumber
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &dest,
-- 
2.43.0


From 8838b7a6d0a5d616e7451d2ea29c8d945df6660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 10/33] fix: a WhoIs on the local network is sent as a
 broadcast

---
 whois.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whois.go b/whois.go
index 8229fc2..ece712c 100644
--- a/whois.go
+++ b/whois.go
@@ -58,9 +58,10 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		start = low
 		end = high
 	}
+	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	// Subscribe before the request goes out, answers may arrive at once
 	values, err := c.utsm.SubscribeAfter(start, end, func() error {
-		_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+		_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
 		return err
 	})
 	if err != nil {
-- 
2.43.0


From ffc8e0378857cc14bcf92217bca0b46a87288c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 11/33] fix: read forwarded NPDUs and the address they come
 from

---
 device.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/device.go b/device.go
index 9413d79..0855ecd 100644
--- a/device.go
+++ b/device.go
@@ -17,7 +17,7 @@ import (
 
 const mtuHeaderLength = 4
 const defaultStateSize = 20
-const forwardHeaderLength = 10
+const forwardAddressLength = 6
 
 type Client interface {
 	io.Closer
@@ -142,6 +142,20 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
 		b = b[mtuHeaderLength:]
+		if header.Function == btypes.BacFuncForwardedNPDU {
+			// The address of the device that sent the NPDU comes first, what we
+			// received it from only passed it on
+			if len(b) < forwardAddressLength {
+				c.log.Error("forwarded NPDU is too short")
+				return
+			}
+			src = &btypes.Address{
+				MacLen: forwardAddressLength,
+				Mac:    append([]uint8{}, b[:forwardAddressLength]...),
+			}
+			b = b[forwardAddressLength:]
+			dec = encoding.NewDecoder(b)
+		}
 		networkList, err := dec.NPDU(&npdu)
 		if err != nil {
 			return
@@ -230,14 +244,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
 		}
 	}
-
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From 1ad1d5211201b387f30c97686f61c93e25fe9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 12/33] fix: only replies end a transaction

---
 device.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 0855ecd..9ad0007 100644
--- a/device.go
+++ b/device.go
@@ -165,13 +165,12 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			c.log.Debug("Ignored Network Layer Message")
 			if npdu.NetworkLayerMessageType == ndpu.NetworkIs {
 				c.utsm.Publish(int(npdu.Source.Net), npdu)
-				//return
 			}
 			if npdu.NetworkLayerMessageType == ndpu.IamRouterToNetwork {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
-				//return
 			}
-
+			// There is no APDU in a network layer message
+			return
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
@@ -228,11 +227,9 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// The invoke id is one the other device picked, it says nothing about
+			// the transactions that we started
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From 81b0be7088862f4db414a2ff16c0a782cf37ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 13/33] fix: a client can be made from an ip and a subnet

---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 9ad0007..1e295da 100644
--- a/device.go
+++ b/device.go
@@ -89,7 +89,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		if !ok {
 
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
 			//log.Fatal(err)
 		}
-- 
2.43.0


From 695442941dcc5f367a8611ecc0433706c252fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 14/33] fix: receive APDUs of the maximum size in full

---
 device.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 1e295da..7448613 100644
--- a/device.go
+++ b/device.go
@@ -19,6 +19,9 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardAddressLength = 6
 
+// maxHeaderLength is the room that a BVLC and a NPDU take in front of an APDU
+const maxHeaderLength = 64
+
 type Client interface {
 	io.Closer
 	ClientClose(closeLogs bool) error
@@ -107,7 +110,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 			utsm.DefaultSubscriberLastReceivedTimeout(time.Second*time.Duration(2)),
 		),
 		readBufferPool: sync.Pool{New: func() interface{} {
-			return make([]byte, maxPDU)
+			return make([]byte, int(maxPDU)+maxHeaderLength)
 		}},
 		log: l,
 	}
-- 
2.43.0


From c790a30c9e2e88443c083105b77bb3efa89a35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 15/33] fix: ClientClose always closes the socket and leaves
 the standard streams open

---
 device.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 7448613..41d575d 100644
--- a/device.go
+++ b/device.go
@@ -11,6 +11,7 @@ import (
 	"github.com/NubeDev/bacnet/utsm"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"os"
 	"sync"
 	"time"
 )
@@ -290,8 +291,9 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 
 func (c *client) ClientClose(closeLogs bool) error {
 	if closeLogs {
-		if f, ok := c.log.Out.(io.Closer); ok {
-			return f.Close()
+		// The standard streams belong to the process
+		if f, ok := c.log.Out.(io.Closer); ok && f != os.Stderr && f != os.Stdout {
+			defer f.Close()
 		}
 	}
 	return c.Close()
-- 
2.43.0


From e3ae0a544bee8b39125130ca262a379c0850e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 16/33] fix: keep receiving after a transient error, in one
 loop per client

---
 device.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 41d575d..f892a74 100644
--- a/device.go
+++ b/device.go
@@ -1,6 +1,7 @@
 package bacnet
 
 import (
+	"errors"
 	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
@@ -11,8 +12,10 @@ import (
 	"github.com/NubeDev/bacnet/utsm"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -20,6 +23,9 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardAddressLength = 6
 
+// receiveErrorDelay is the pause after a message could not be received
+const receiveErrorDelay = 10 * time.Millisecond
+
 // maxHeaderLength is the room that a BVLC and a NPDU take in front of an APDU
 const maxHeaderLength = 64
 
@@ -44,6 +50,7 @@ type client struct {
 	utsm           *utsm.Manager
 	readBufferPool sync.Pool
 	log            *log.Logger
+	running        int32 // 1 while ClientRun is receiving
 }
 
 type ClientBuilder struct {
@@ -118,14 +125,23 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 	return cli, err
 }
 
+// ClientRun receives messages until the client is closed. It returns at once
+// when it is running already.
 func (c *client) ClientRun() {
-	var err error = nil
-	for err == nil {
+	if !atomic.CompareAndSwapInt32(&c.running, 0, 1) {
+		return
+	}
+	defer atomic.StoreInt32(&c.running, 0)
+	for {
 		b := c.readBufferPool.Get().([]byte)
-		var addr *btypes.Address
-		var n int
-		addr, n, err = c.dataLink.Receive(b)
+		addr, n, err := c.dataLink.Receive(b)
+		if errors.Is(err, net.ErrClosed) {
+			return
+		}
 		if err != nil {
+			// It may well work the next time
+			c.log.Error(err)
+			time.Sleep(receiveErrorDelay)
 			continue
 		}
 		go c.handleMsg(addr, b[:n])
-- 
2.43.0


From ba8c7a89e2ebfe62b8e9b78e0104100922444cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 17/33] fix: address devices behind routers with their whole
 hardware address

---
 btypes/address.go | 4 ++--
 writemulti.go     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..5c476c8 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -24,10 +24,10 @@ func (a *Address) IsBroadcast() bool {
 	return false
 }
 
-//SetLength if device is of type ms-tp then set address len to 1
+//SetLength sets the address len to the length of the hardware address (1 if the device is of type ms-tp)
 func (a *Address) SetLength() {
 	if len(a.Adr) > 0 {
-		a.Len = 1
+		a.Len = uint8(len(a.Adr))
 	}
 	return
 }
diff --git a/writemulti.go b/writemulti.go
index e65a189..d283e8d 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -17,6 +17,7 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 		return fmt.Errorf("unable to get an transaction id: %v", err)
 	}
 	defer c.tsm.Put(id)
+	dev.Addr.SetLength()
 
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
-- 
2.43.0


From 9623f1cea1ae3ac2909c19be3cb5f51e3238288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 18/33] fix: Objects copes with tiny APDUs, proprietary objects
 and short answers

---
 objectlist.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..31c2880 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -91,7 +91,7 @@ func (c *client) objectList(dev *btypes.Device) error {
 	}
 
 	// Scan size is broken
-	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	scanSize := max(int(dev.MaxApdu)/readPropRequestSize, 1)
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
@@ -146,13 +146,22 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if counter == 0 {
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
 	}
+	if len(resp.Objects) != counter {
+		return fmt.Errorf("expecting %d objects got %d", counter, len(resp.Objects))
+	}
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
+		if len(r.Properties) != 2 {
+			return fmt.Errorf("expecting 2 properties got %d", len(r.Properties))
+		}
 		name, ok = r.Properties[0].Data.(string)
 		if !ok {
 			return fmt.Errorf("expecting string got %T", r.Properties[0].Data)
-- 
2.43.0


From dbd501a3ae19366e8659a4f863bb765e70fd6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 19/33] fix: read priority arrays of analogue points

---
 btypes/priority/priority.go | 17 +++++------------
 helpers/data/data.go        |  8 ++++++++
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..3971c83 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -4,7 +4,6 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/helpers/data"
 	"github.com/NubeDev/bacnet/helpers/nils"
-	"reflect"
 )
 
 func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float32) {
@@ -12,17 +11,11 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 	_, arr := data.ToArr(in)
 	for i, value := range arr {
 		var returnValue *float32
-		typeOf := reflect.TypeOf(value)
-		if typeOf.Name() != "Null" {
-			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			}
+		switch v := value.(type) { // a slot that is not in use holds a null
+		case float32:
+			returnValue = nils.NewFloat32(v)
+		case uint32: // binary and multi-state points
+			returnValue = nils.NewFloat32(float32(v))
 		}
 		switch i {
 		case 0:
diff --git a/helpers/data/data.go b/helpers/data/data.go
index a8d859c..ac8ea27 100644
--- a/helpers/data/data.go
+++ b/helpers/data/data.go
@@ -6,6 +6,10 @@ import (
 )
 
 func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.(*btypes.BitString)
 
 	if !ok {
@@ -16,6 +20,10 @@ func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
 }
 
 func ToArr(d btypes.PropertyData) (ok bool, out []interface{}) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.([]interface{})
 	if !ok {
 		fmt.Println("unable to get object list")
-- 
2.43.0


From c5360985e1444fad672aeb08ec959078ebdeaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 20/33] fix: DeviceObjects reports what it cannot read and
 lists a single object

---
 network/objects.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index f7367d4..0a173b1 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -1,6 +1,7 @@
 package network
 
 import (
+	"errors"
 	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
@@ -46,9 +47,15 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
-	_, ids := data.ToArr(out)
+	ok, ids := data.ToArr(out)
+	if !ok { // a list of one object comes as the object itself
+		ids = []interface{}{out.Object.Properties[0].Data}
+	}
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected type Object ID, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
@@ -69,13 +76,25 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, errors.New("unable to get object list length")
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		if len(out.Object.Properties) == 0 {
+			return nil, errors.New("no object was returned")
+		}
+		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected type Object ID, got %T", out.Object.Properties[0].Data)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, err
-- 
2.43.0


From 2452c4c7624122dce91caaabb06041f3adb46495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 21/33] fix: a device keeps the port and the id it was made
 with

---
 btypes/device.go  | 6 +++++-
 network/device.go | 1 +
 network/store.go  | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/btypes/device.go b/btypes/device.go
index 0357c32..90b8d8e 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -87,9 +87,13 @@ func NewDevice(device *Device) (*Device, error) {
 		Mac: ip,
 		Adr: []uint8{uint8(device.MacMSTP)},
 	}
+	instance := device.ID.Instance
+	if instance == 0 {
+		instance = ObjectInstance(device.DeviceID)
+	}
 	object := ObjectID{
 		Type:     DeviceType,
-		Instance: device.ID.Instance,
+		Instance: instance,
 	}
 	device.ID = object
 	device.Addr = addr
diff --git a/network/device.go b/network/device.go
index 1dcc22f..79b6558 100644
--- a/network/device.go
+++ b/network/device.go
@@ -30,6 +30,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index 426ff77..b4bfed2 100644
--- a/network/store.go
+++ b/network/store.go
@@ -60,6 +60,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	var err error
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From 408588703def5886e341b7850a809b150e6d17b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 22/33] fix: a missing network, store or entry is an error

---
 network/base.go   |  9 ++++-----
 network/device.go |  6 +++---
 network/store.go  | 10 ++++++++--
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/network/base.go b/network/base.go
index ffd4269..9d834ae 100644
--- a/network/base.go
+++ b/network/base.go
@@ -18,6 +18,9 @@ type Network struct {
 
 // New returns a new instance of bacnet network
 func New(net *Network) (*Network, error) {
+	if net.Store == nil || net.Store.BacStore == nil {
+		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  net.Interface,
 		Ip:         net.Ip,
@@ -29,11 +32,7 @@ func New(net *Network) (*Network, error) {
 		return nil, err
 	}
 	net.bacnet = bc
-	if net.Store.BacStore != nil {
-		net.Store.BacStore.Set(net.StoreID, net, -1)
-	} else {
-		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
-	}
+	net.Store.BacStore.Set(net.StoreID, net, -1)
 	return net, nil
 }
 
diff --git a/network/device.go b/network/device.go
index 79b6558..accc240 100644
--- a/network/device.go
+++ b/network/device.go
@@ -1,6 +1,7 @@
 package network
 
 import (
+	"errors"
 	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
@@ -25,8 +26,7 @@ type Device struct {
 func NewDevice(net *Network, device *Device) (*Device, error) {
 	var err error
 	if net == nil {
-		fmt.Println("network can not be nil")
-		return nil, err
+		return nil, errors.New("network can not be nil")
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
@@ -47,7 +47,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	device.network = net.bacnet
 	device.dev = *dev
-	if net.Store.BacStore != nil {
+	if net.Store != nil && net.Store.BacStore != nil {
 		net.Store.BacStore.Set(device.StoreID, device, -1)
 	}
 	return device, nil
diff --git a/network/store.go b/network/store.go
index b4bfed2..29d9e98 100644
--- a/network/store.go
+++ b/network/store.go
@@ -51,7 +51,10 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
 	}
-	parse := cli.(*Network)
+	parse, ok := cli.(*Network)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
+	}
 	return parse, nil
 }
 
@@ -88,6 +91,9 @@ func (store *Store) GetDevice(uuid string) (*Device, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
 	}
-	parse := cli.(*Device)
+	parse, ok := cli.(*Device)
+	if !ok {
+		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
+	}
 	return parse, nil
 }
-- 
2.43.0


From 3475e1c6a1e330ef2cb1419a210a5a7bd4d69a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 23/33] fix: discovery reads each device's details from that
 device

---
 network/discover.go | 26 ++++++++++++++++----------
 network/whois.go    | 15 ++++-----------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..91ee671 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -92,22 +92,28 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 		return devices, err
 	}
 	for _, dev := range whois {
+		found := &Device{
+			StoreID: device.StoreID,
+			dev:     dev,
+			network: device.network,
+		}
 		if len(dev.Addr.Adr) > 0 {
-			device.MacMSTP = int(dev.Addr.Adr[0])
+			found.MacMSTP = int(dev.Addr.Adr[0])
 		}
 		host, _ := dev.Addr.UDPAddr()
-		device.DeviceID = int(dev.ID.Instance)
-		device.Ip = host.IP.String()
-		device.NetworkNumber = int(dev.Addr.Net)
-		device.MaxApdu = dev.MaxApdu
-		device.Segmentation = uint32(dev.Segmentation)
-		details, err := device.GetDeviceDetails(dev.ID.Instance)
+		found.DeviceID = int(dev.ID.Instance)
+		found.Ip = host.IP.String()
+		found.Port = host.Port
+		found.NetworkNumber = int(dev.Addr.Net)
+		found.MaxApdu = dev.MaxApdu
+		found.Segmentation = uint32(dev.Segmentation)
+		details, err := found.GetDeviceDetails(dev.ID.Instance)
 		if err != nil {
 			fmt.Println("discover err", err)
 		}
-		device.DeviceName = details.Name
-		device.VendorName = details.VendorName
-		devices = append(devices, device)
+		found.DeviceName = details.Name
+		found.VendorName = details.VendorName
+		devices = append(devices, found)
 
 	}
 	count := 1
diff --git a/network/whois.go b/network/whois.go
index 74cb953..854dc2c 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -22,19 +22,12 @@ func (net *Network) Whois(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
 func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
 	go net.NetworkRun()
 	resp, err := net.bacnet.WhoIs(options)
+	if err != nil {
+		return nil, err
+	}
 	var devices []btypes.Device
 	for _, device := range resp {
-		buildDevice := &btypes.Device{
-			DeviceID:      device.DeviceID,
-			Ip:            device.Ip,
-			Port:          device.Port,
-			NetworkNumber: device.NetworkNumber,
-			MacMSTP:       device.MacMSTP,
-			MaxApdu:       device.MaxApdu,
-			Segmentation:  device.Segmentation,
-		}
-		dev, err := btypes.NewDevice(buildDevice)
-		details, err := net.GetDeviceDetails(*dev)
+		details, err := net.GetDeviceDetails(device)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 623adc9a270fcc04b9abcb489822af40797b2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 24/33] fix: ask small devices for the information of fewer
 objects at a time

---
 objectlist.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 31c2880..1eaa6a4 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -72,6 +72,9 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 
 const readPropRequestSize = 20
 
+// objectInfoRequestSize is what asking for an object's information takes
+const objectInfoRequestSize = 10
+
 func objectCopy(dest btypes.ObjectMap, src []btypes.Object) {
 	for _, o := range src {
 		if dest[o.ID.Type] == nil {
@@ -180,7 +183,8 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 
 func (c *client) allObjectInformation(dev *btypes.Device) error {
 	objs := dev.ObjectSlice()
-	incrSize := 5
+	// Ask for fewer objects at a time if the device takes only small requests
+	incrSize := max(min(5, (int(dev.MaxApdu)-readPropRequestSize)/objectInfoRequestSize), 1)
 
 	var err error
 	for i := 0; i < len(objs); i += incrSize {
-- 
2.43.0


From bd9886ede51ca173ec8a8c8c888ab0d31ddd9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:37 +0000
Subject: [PATCH 25/33] fix: late answers to an earlier transaction do not
 answer a later one

Invoke ids come round again after 254 transactions. An answer that is still
under way then was taken for that of whichever transaction held the id: a read
returned another object's value, a write succeeded because another device had
acknowledged something. Answers now count only when they come from the device
that was asked, are of the service that was asked for and, for reads, name what
was asked for.
---
 answer.go     | 107 ++++++++++++++++++++++++++++++++++++++++++++++++++
 device.go     |   6 +--
 readmulti.go  |   6 +--
 readprop.go   |   2 +-
 writemulti.go |   2 +-
 writeprop.go  |   2 +-
 6 files changed, 116 insertions(+), 9 deletions(-)
 create mode 100644 answer.go

diff --git a/answer.go b/answer.go
new file mode 100644
index 0000000..c67a696
--- /dev/null
+++ b/answer.go
@@ -0,0 +1,107 @@
+package bacnet
+
+import (
+	"bytes"
+	"github.com/NubeDev/bacnet/btypes"
+	"github.com/NubeDev/bacnet/encoding"
+	"time"
+)
+
+// answer is what was received for an invoke id
+type answer struct {
+	src     btypes.Address  // the BACnet/IP device it was received from
+	network *btypes.Address // the network and hardware address behind it, if any
+	service btypes.ServiceConfirmed
+	data    interface{} // the APDU, or an error
+}
+
+// isFrom reports whether the answer was sent by the device with the address
+func (a *answer) isFrom(dev *btypes.Address) bool {
+	if !bytes.Equal(a.src.Mac, dev.Mac) {
+		return false
+	}
+	if dev.Net == btypes.GlobalBroadcast {
+		return true
+	}
+	if a.network == nil || a.network.Net == 0 || dev.Net == 0 {
+		return dev.Net == 0 && (a.network == nil || a.network.Net == 0)
+	}
+	return a.network.Net == dev.Net && (len(dev.Adr) == 0 || bytes.Equal(a.network.Adr, dev.Adr))
+}
+
+// receive waits for the answer of the device to a transaction. Invoke ids are
+// used again: what another device, or another service, answers to an earlier
+// transaction with the same id may still arrive and is dropped. So is what
+// acknowledges that other objects or properties were read, when asked is set.
+func (c *client) receive(id int, dev *btypes.Address, service btypes.ServiceConfirmed, asked []btypes.Object, timeout time.Duration) (interface{}, error) {
+	until := time.Now().Add(timeout)
+	for {
+		raw, err := c.tsm.Receive(id, time.Until(until))
+		if err != nil {
+			return nil, err
+		}
+		a, ok := raw.(*answer)
+		if ok && a.service == service && a.isFrom(dev) && (asked == nil || a.isAbout(asked)) {
+			return a.data, nil
+		}
+	}
+}
+
+// isAbout reports whether the answer is about the objects and properties, if
+// it can be read at all.
+func (a *answer) isAbout(asked []btypes.Object) bool {
+	b, ok := a.data.([]byte)
+	if !ok {
+		return true
+	}
+	var apdu btypes.APDU
+	dec := encoding.NewDecoder(b)
+	if err := dec.APDU(&apdu); err != nil {
+		return true
+	}
+	if a.service == btypes.ServiceConfirmedReadProperty {
+		var out btypes.PropertyData
+		return dec.ReadProperty(&out) != nil || isAnswerTo(asked, []btypes.Object{out.Object})
+	}
+	var out btypes.MultiplePropertyData
+	return dec.ReadMultiplePropertyAck(&out) != nil || isAnswerTo(asked, out.Objects)
+}
+
+func isAnswerTo(asked, got []btypes.Object) bool {
+	if len(asked) != len(got) {
+		return false
+	}
+	for i := range asked {
+		if !sameObject(asked[i].ID, got[i].ID) || !sameProperties(asked[i].Properties, got[i].Properties) {
+			return false
+		}
+	}
+	return true
+}
+
+func sameObject(asked, got btypes.ObjectID) bool {
+	if asked.Instance == btypes.MaxInstance {
+		// stands for whichever instance the device has
+		return asked.Type == got.Type
+	}
+	return asked == got
+}
+
+func sameProperties(asked, got []btypes.Property) bool {
+	for _, p := range asked {
+		switch p.Type {
+		case btypes.PROP_ALL, btypes.PROP_REQUIRED, btypes.PROP_OPTIONAL:
+			// the device decides which ones there are
+			return true
+		}
+	}
+	if len(asked) != len(got) {
+		return false
+	}
+	for i := range asked {
+		if asked[i].Type != got[i].Type || asked[i].ArrayIndex != got[i].ArrayIndex {
+			return false
+		}
+	}
+	return true
+}
diff --git a/device.go b/device.go
index f892a74..c82d919 100644
--- a/device.go
+++ b/device.go
@@ -236,13 +236,13 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			}
 		case btypes.SimpleAck:
 			c.log.Debug("Received Simple Ack")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
+			err := c.tsm.Send(int(apdu.InvokeId), &answer{*src, npdu.Source, apdu.Service, send})
 			if err != nil {
 				return
 			}
 		case btypes.ComplexAck:
 			c.log.Debug("Received Complex Ack")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
+			err := c.tsm.Send(int(apdu.InvokeId), &answer{*src, npdu.Source, apdu.Service, send})
 			if err != nil {
 				return
 			}
@@ -252,7 +252,7 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
-			err = c.tsm.Send(int(apdu.InvokeId), err)
+			err = c.tsm.Send(int(apdu.InvokeId), &answer{*src, npdu.Source, apdu.Service, err})
 			if err != nil {
 				c.log.Debugf("unable to Send error to %d: %v", apdu.InvokeId, err)
 			}
diff --git a/readmulti.go b/readmulti.go
index 67377e1..d430178 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -58,7 +58,7 @@ func (c *client) ReadMultiProperty(device btypes.Device, rp btypes.MultiplePrope
 	err = fmt.Errorf("go")
 
 	for count := 0; err != nil && count < maxReattempt; count++ {
-		out, err = c.sendReadMultipleProperty(id, device, npdu, pack)
+		out, err = c.sendReadMultipleProperty(id, device, npdu, pack, rp.Objects)
 		if err == nil {
 			return out, nil
 		}
@@ -66,14 +66,14 @@ func (c *client) ReadMultiProperty(device btypes.Device, rp btypes.MultiplePrope
 	return out, fmt.Errorf("failed %d tries: %v", maxReattempt, err)
 }
 
-func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btypes.NPDU, request []byte) (btypes.MultiplePropertyData, error) {
+func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btypes.NPDU, request []byte, asked []btypes.Object) (btypes.MultiplePropertyData, error) {
 	var out btypes.MultiplePropertyData
 	_, err := c.Send(dev.Addr, npdu, request, nil)
 	if err != nil {
 		return out, err
 	}
 
-	raw, err := c.tsm.Receive(id, time.Duration(5)*time.Second)
+	raw, err := c.receive(id, &dev.Addr, btypes.ServiceConfirmedReadPropMultiple, asked, time.Duration(5)*time.Second)
 	if err != nil {
 		return out, fmt.Errorf("unable to receive id %d: %v", id, err)
 	}
diff --git a/readprop.go b/readprop.go
index 73f1b57..cc1611e 100644
--- a/readprop.go
+++ b/readprop.go
@@ -46,7 +46,7 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 		}
 
 		var raw interface{}
-		raw, err = c.tsm.Receive(id, time.Duration(5)*time.Second)
+		raw, err = c.receive(id, &device.Addr, btypes.ServiceConfirmedReadProperty, []btypes.Object{rp.Object}, time.Duration(5)*time.Second)
 		if err != nil {
 			continue
 		}
diff --git a/writemulti.go b/writemulti.go
index d283e8d..8acaafa 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -59,7 +59,7 @@ func (c *client) sendWriteMultipleProperty(id int, dev btypes.Device, npdu *btyp
 		return err
 	}
 
-	raw, err := c.tsm.Receive(id, time.Duration(5)*time.Second)
+	raw, err := c.receive(id, &dev.Addr, btypes.ServiceConfirmedWritePropMultiple, nil, time.Duration(5)*time.Second)
 	if err != nil {
 		return fmt.Errorf("unable to receive id %d: %v", id, err)
 	}
diff --git a/writeprop.go b/writeprop.go
index e262b0a..4ad4071 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -41,7 +41,7 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 		if err != nil {
 			continue
 		}
-		raw, err = c.tsm.Receive(id, time.Duration(5)*time.Second)
+		raw, err = c.receive(id, &device.Addr, btypes.ServiceConfirmedWriteProperty, nil, time.Duration(5)*time.Second)
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From 127d0be58fd667c5db2c2bee952893d16cfaf989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 26/33] fix: an I-Am that cannot be encoded is refused, one to
 a routed address names it

---
 iam.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iam.go b/iam.go
index aa0a677..05623b8 100644
--- a/iam.go
+++ b/iam.go
@@ -10,6 +10,7 @@ not working
 */
 
 func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
+	dest.SetLength()
 	npdu := &btypes.NPDU{
 		Version:     btypes.ProtocolVersion,
 		Destination: &dest,
@@ -22,7 +23,10 @@ func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.IAm(iam)
-	_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+	err := enc.IAm(iam)
+	if err != nil {
+		return err
+	}
+	_, err = c.Send(dest, npdu, enc.Bytes(), nil)
 	return err
 }
-- 
2.43.0


From b812dccadcc9aa86f491018746ea5bb414b77ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 27/33] fix: a who-is up to the highest instance keeps its
 limits

---
 encoding/whois.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/whois.go b/encoding/whois.go
index 1fa11cb..45c84bb 100644
--- a/encoding/whois.go
+++ b/encoding/whois.go
@@ -14,7 +14,7 @@ func (e *Encoder) WhoIs(low, high int32) error {
 
 	// The range is optional. A scan for all objects is done when either low/high
 	// are negative or when we are scanning above the max instance
-	if low >= 0 && high >= 0 && low < btypes.MaxInstance && high <
+	if low >= 0 && high >= 0 && low <= btypes.MaxInstance && high <=
 		btypes.MaxInstance {
 		// Tag 0
 		e.contextUnsigned(0, uint32(low))
-- 
2.43.0


From 19e56650b7c1641c67dd64604b14be874802cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 28/33] fix: a network made through the store knows its store,
 id and address

---
 network/store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/network/store.go b/network/store.go
index 29d9e98..55239ce 100644
--- a/network/store.go
+++ b/network/store.go
@@ -34,9 +34,13 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		return err
 	}
 	bacnetNet := &Network{
-		Interface: iface,
-		Port:      port,
-		bacnet:    bc,
+		Interface:  iface,
+		Ip:         ip,
+		Port:       port,
+		SubnetCIDR: subnet,
+		StoreID:    storeID,
+		bacnet:     bc,
+		Store:      store,
 	}
 	if store.BacStore != nil {
 		store.BacStore.Set(storeID, bacnetNet, -1)
-- 
2.43.0


From f1f36b96a1c2f9843c7e53cceb428d082cb4004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 29/33] fix: every caller of a discovery gets its own addresses

The answer to a who-is, a who-is-router or a what-is-network-number is handed
to every caller that waits for it; the callers' results shared the slices (and
for the network number the whole address) with each other, so what one did
with its result changed another's.
---
 whatnetwork.go |  3 ++-
 whois.go       | 11 ++++++++++-
 whoisrouter.go |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/whatnetwork.go b/whatnetwork.go
index d090afe..821d7b4 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -44,7 +44,8 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 	for _, v := range values {
 		r, ok := v.(btypes.NPDU)
 		if r.Source != nil {
-			resp = append(resp, r.Source)
+			source := ownAddress(*r.Source)
+			resp = append(resp, &source)
 		}
 		if !ok {
 			continue
diff --git a/whois.go b/whois.go
index ece712c..ee3a2b6 100644
--- a/whois.go
+++ b/whois.go
@@ -13,6 +13,15 @@ type WhoIsOpts struct {
 	NetworkNumber   uint16 `json:"network_number"`
 }
 
+// ownAddress is a copy of addr that shares no memory with it: an answer is
+// handed to everybody who waits for it, what each of them does with its result
+// must not change the others'.
+func ownAddress(addr btypes.Address) btypes.Address {
+	addr.Mac = append([]uint8(nil), addr.Mac...)
+	addr.Adr = append([]uint8(nil), addr.Adr...)
+	return addr
+}
+
 // WhoIs finds all devices with ids between the provided low and high values.
 // Use constant ArrayAll for both fields to scan the entire network at once.
 // Using ArrayAll is highly discouraged for most networks since it can lead
@@ -90,7 +99,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		if _, ok := uniqueMap[r.ID.Instance]; !ok {
 			dev := btypes.Device{
 				DeviceID:      int(r.ID.Instance),
-				Addr:          r.Addr,
+				Addr:          ownAddress(r.Addr),
 				ID:            r.ID,
 				MaxApdu:       r.MaxApdu,
 				Segmentation:  r.Segmentation,
diff --git a/whoisrouter.go b/whoisrouter.go
index 2d5fd89..1ddc83e 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -42,7 +42,7 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 			continue
 		}
 		for _, addr := range r {
-			list = append(list, addr)
+			list = append(list, ownAddress(addr))
 		}
 	}
 	return &list
-- 
2.43.0


From 88f5f5cc76e76f72896f76a3ad14dc48164df798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:08 +0000
Subject: [PATCH 30/33] fix: values in context tags are decoded as their
 property says or left out

Tags that the property gives no type to were read as the application type of
the same number, the cases of two shed levels were empty, a boolean's length
was taken for its value, and nested tags were taken for those of the property.
---
 encoding/context_tag.go     |  27 ++++++-
 encoding/readmultipleack.go | 145 +++++++++++++++++++-----------------
 2 files changed, 100 insertions(+), 72 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..11cf3ef 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -5,11 +5,16 @@ import "github.com/NubeDev/bacnet/btypes"
 /* refer to https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacapp.c#L583 */
 /* returns the fixed tag type for certain context tagged properties */
 func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
-	tag := tagNumber
+	tag := maxTag
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_EVENT_TIME_STAMPS:
+		switch tagNumber {
+		case btypes.TimeStampTime:
+			tag = tagTime
+		case btypes.TimeStampSequence:
+			tag = tagUint
+		}
+	case btypes.PROP_ACTUAL_SHED_LEVEL, btypes.PROP_REQUESTED_SHED_LEVEL, btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
@@ -95,3 +100,17 @@ func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
 
 	return tag
 }
+
+// contextData decodes the contents of a context tag as a value of the type of
+// the application tag
+func (d *Decoder) contextData(tag uint8, len int) (interface{}, error) {
+	b := d.take(len)
+	if d.err != nil {
+		return nil, d.err
+	}
+	if tag == tagBool {
+		// Only in an application tag is a boolean its own length
+		return len > 0 && b[len-1] != 0, nil
+	}
+	return NewDecoder(b).AppDataOfTag(tag, len)
+}
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index d67ebe4..eb4fd82 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -149,74 +149,10 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 			// Tag 4 - Opening Tag
 			if tag == 4 && meta.isOpening() {
-				var array []interface{}
-				// Constructed values bring opening and closing tags of their own
-				depth := 0
-				for {
-					tag, meta = d.tagNumber()
-					if d.err != nil {
-						return d.err
-					}
-					if meta.isContextSpecific() {
-						if meta.isClosing() {
-							if depth == 0 {
-								break
-							}
-							depth--
-						} else if meta.isOpening() {
-							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
-								dt := &btypes.DataTime{}
-								for {
-									tag, meta, length = d.tagNumberAndValue()
-									if d.err != nil {
-										return d.err
-									}
-									if meta.isClosing() && tag == btypes.TimeStampDatetime {
-										break
-									} else if tag == tagDate {
-										d.date(&dt.Date, int(length))
-									} else if tag == tagTime {
-										d.time(&dt.Time, int(length))
-									} else if length > 0 {
-										d.Skip(length)
-									}
-								}
-								array = append(array, dt)
-							} else {
-								depth++
-							}
-						} else {
-							// TODO how to parse it in Context???
-							lenValue := d.value(meta)
-							tag = tagTypeInContext(prop.Type, tag)
-							if tag == maxTag {
-								//skip unknown type
-								if err := d.Skip(lenValue); err != nil {
-									return err
-								}
-							} else {
-								data, err := d.AppDataOfTag(tag, int(lenValue))
-								if err != nil {
-									return err
-								}
-								array = append(array, data)
-							}
-						}
-					} else {
-						data, err := d.AppDataOfTag(tag, int(d.value(meta)))
-						if err != nil {
-							return err
-						}
-						array = append(array, data)
-					}
-				}
-				if tag != 4 {
-					return &ErrorIncorrectTag{Expected: 4, Given: tag}
-				}
-				if len(array) == 1 {
-					prop.Data = array[0]
-				} else {
-					prop.Data = array
+				var err error
+				prop.Data, err = d.propertyValue(prop.Type, tag)
+				if err != nil {
+					return err
 				}
 				obj.Properties = append(obj.Properties, prop)
 
@@ -242,3 +178,76 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 	}
 	return d.Error()
 }
+
+// propertyValue decodes the values between an opening tag, which has been read,
+// and its closing tag. A single value is returned as it is, others as a list.
+func (d *Decoder) propertyValue(property btypes.PropertyType, openedTag uint8) (interface{}, error) {
+	array := []interface{}{}
+	// Constructed values bring opening and closing tags of their own
+	depth := 0
+	for {
+		tag, meta := d.tagNumber()
+		if d.err != nil {
+			return nil, d.err
+		}
+		if meta.isContextSpecific() {
+			if meta.isClosing() {
+				if depth == 0 {
+					if tag != openedTag {
+						return nil, &ErrorIncorrectTag{Expected: openedTag, Given: tag}
+					}
+					if len(array) == 1 {
+						return array[0], nil
+					}
+					return array, nil
+				}
+				depth--
+			} else if meta.isOpening() {
+				// In an exception schedule the tag opens a list of time values
+				if tag == btypes.TimeStampDatetime && property != btypes.PROP_EXCEPTION_SCHEDULE {
+					dt := &btypes.DataTime{}
+					for {
+						tag, meta, length := d.tagNumberAndValue()
+						if d.err != nil {
+							return nil, d.err
+						}
+						if meta.isClosing() && tag == btypes.TimeStampDatetime {
+							break
+						} else if tag == tagDate {
+							d.date(&dt.Date, int(length))
+						} else if tag == tagTime {
+							d.time(&dt.Time, int(length))
+						} else if length > 0 {
+							d.Skip(length)
+						}
+					}
+					array = append(array, dt)
+				} else {
+					depth++
+				}
+			} else {
+				// TODO how to parse it in Context???
+				lenValue := d.value(meta)
+				tag = tagTypeInContext(property, tag)
+				if tag == maxTag || depth > 0 && property != btypes.PROP_ACTION {
+					//skip unknown type
+					if err := d.Skip(lenValue); err != nil {
+						return nil, err
+					}
+				} else {
+					data, err := d.contextData(tag, int(lenValue))
+					if err != nil {
+						return nil, err
+					}
+					array = append(array, data)
+				}
+			}
+		} else {
+			data, err := d.AppDataOfTag(tag, int(d.value(meta)))
+			if err != nil {
+				return nil, err
+			}
+			array = append(array, data)
+		}
+	}
+}
-- 
2.43.0


From 1a4dbbdecc9f8891b51db0e38e249b4005ea0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:08 +0000
Subject: [PATCH 31/33] fix: reading a single property decodes constructed
 values

It read context tags as application tags. An acknowledgement is closed with
the tag that opened it.
---
 encoding/readprop.go | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index a8e7eb0..af98b15 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -74,7 +74,6 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
 	e.AppData(prop.Data, false)
 	e.closingTag(tagID)
@@ -145,25 +144,7 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 
 		if openTag == 3 {
 			var err error
-			// We subtract one to ignore the closing tag.
-			datalist := make([]interface{}, 0)
-
-			// There is a closing tag of size 1 byte that we ignore which is why we are
-			// looping until the length is greater than 1
-			for i := 0; d.buff.Len() > 1; i++ {
-				data, err := d.AppData()
-				if err != nil {
-					d.err = err
-					return err
-				}
-				datalist = append(datalist, data)
-			}
-			prop.Data = datalist
-
-			// If we only have one value in the list, lets just return that value
-			if len(datalist) == 1 {
-				prop.Data = datalist[0]
-			}
+			prop.Data, err = d.propertyValue(prop.Type, openTag)
 			if err != nil {
 				d.err = err
 				return err
-- 
2.43.0


From dfc833dd1cff3181ee5afac7435f1421abfc3ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:36 +0000
Subject: [PATCH 32/33] fix: an object without any of the properties asked for
 is read as such

---
 encoding/readmultipleack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index eb4fd82..267c7e4 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -117,9 +117,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			return &ErrorWrongTagType{OpeningTag}
 		}
 
-		// Tag 2 - Property Tag
+		// Tag 2 - Property Tag, unless the object has none of those asked for
 		tag, meta, length = d.tagNumberAndValue()
-		if tag != 2 {
+		if tag != 2 && !(tag == 1 && meta.isClosing()) {
 			return &ErrorIncorrectTag{Expected: 2, Given: tag}
 		}
 
-- 
2.43.0


From a15990ff4be15de57d41700e8889be463d3d9380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:51 +0000
Subject: [PATCH 33/33] fix: take no I-Am for a device's that names no object

---
 encoding/iam.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..c57bd00 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -1,6 +1,8 @@
 package encoding
 
 import (
+	"fmt"
+
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -24,9 +26,11 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 	if err != nil {
 		return err
 	}
-	if i, ok := objID.(btypes.ObjectID); ok {
-		id.ID = i
+	i, ok := objID.(btypes.ObjectID)
+	if !ok {
+		return fmt.Errorf("I-Am without the identifier of a device, got %T", objID)
 	}
+	id.ID = i
 	maxapdu, _ := d.AppData()
 	if m, ok := maxapdu.(uint32); ok {
 		id.MaxApdu = m
-- 
2.43.0


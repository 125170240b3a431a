From c424a3baae7c8e9be58ac2cb779120d5cd0f321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 01/77] fix: let only the broker side consume a subscription's
 cancellation request

---
 pkg/extensions/broker.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index 123ec3d..dada3a0 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -10,6 +10,8 @@ import (
 type BrokerChannelSubscription struct {
 	messages chan AcknowledgeableBrokerMessage
 	cancel   chan any
+	// cancelled is closed when the cancellation is complete
+	cancelled chan struct{}
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -19,8 +21,9 @@ func NewBrokerChannelSubscription(
 	cancel chan any,
 ) BrokerChannelSubscription {
 	return BrokerChannelSubscription{
-		messages: messages,
-		cancel:   cancel,
+		messages:  messages,
+		cancel:    cancel,
+		cancelled: make(chan struct{}),
 	}
 }
 
@@ -49,8 +52,8 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Close messages in order to avoid new messages
 		close(bcs.messages)
 
-		// Close cancel to let listeners know that the cancellation is complete
-		close(bcs.cancel)
+		// Let listeners know that the cancellation is complete
+		close(bcs.cancelled)
 	}()
 }
 
@@ -58,12 +61,16 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 // up on broker, which will return when finished to avoid dangling resources, such
 // as non-existent queue listeners on (broker) server side.
 func (bcs BrokerChannelSubscription) Cancel(ctx context.Context) {
-	// Send a cancellation request
-	bcs.cancel <- true
+	// Send a cancellation request, if it is not already cancelled
+	select {
+	case bcs.cancel <- true:
+	case <-bcs.cancelled:
+		return
+	}
 
 	// Wait for the cancellation to be effective
 	select {
-	case <-bcs.cancel:
+	case <-bcs.cancelled:
 	case <-ctx.Done():
 	}
 }
-- 
2.43.0


From 440f609391a66f58ddff6366c8f54809dd8e6ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 02/77] fix: do not transmit messages on a subscription whose
 stream is closed

---
 pkg/extensions/broker.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/pkg/extensions/broker.go b/pkg/extensions/broker.go
index dada3a0..288e83b 100644
--- a/pkg/extensions/broker.go
+++ b/pkg/extensions/broker.go
@@ -3,6 +3,7 @@ package extensions
 import (
 	"context"
 	"fmt"
+	"sync"
 )
 
 // BrokerChannelSubscription is a struct that contains every returned structures
@@ -12,6 +13,10 @@ type BrokerChannelSubscription struct {
 	cancel   chan any
 	// cancelled is closed when the cancellation is complete
 	cancelled chan struct{}
+	// stopped is closed when received messages should not be transmitted anymore
+	stopped chan struct{}
+	// transmissions is held (for reading) by the ongoing transmissions
+	transmissions *sync.RWMutex
 }
 
 // NewBrokerChannelSubscription creates a new broker channel subscription based
@@ -21,16 +26,33 @@ func NewBrokerChannelSubscription(
 	cancel chan any,
 ) BrokerChannelSubscription {
 	return BrokerChannelSubscription{
-		messages:  messages,
-		cancel:    cancel,
-		cancelled: make(chan struct{}),
+		messages:      messages,
+		cancel:        cancel,
+		cancelled:     make(chan struct{}),
+		stopped:       make(chan struct{}),
+		transmissions: &sync.RWMutex{},
 	}
 }
 
 // TransmitReceivedMessage should only be used by the broker to transmit the
-// new received messages to the user.
+// new received messages to the user. Messages are dropped, without being
+// acknowledged, when the subscription is already cancelled.
 func (bcs BrokerChannelSubscription) TransmitReceivedMessage(msg AcknowledgeableBrokerMessage) {
-	bcs.messages <- msg
+	// Avoid that messages are closed during the transmission
+	bcs.transmissions.RLock()
+	defer bcs.transmissions.RUnlock()
+
+	// Do not use messages if they may be already closed
+	select {
+	case <-bcs.stopped:
+		return
+	default:
+	}
+
+	select {
+	case bcs.messages <- msg:
+	case <-bcs.stopped:
+	}
 }
 
 // MessagesChannel returns the channel that will get the received messages from
@@ -49,6 +71,11 @@ func (bcs BrokerChannelSubscription) WaitForCancellationAsync(cleanup func()) {
 		// Execute cleanup function
 		cleanup()
 
+		// Stop the ongoing transmissions and refuse the next ones
+		close(bcs.stopped)
+		bcs.transmissions.Lock()
+		defer bcs.transmissions.Unlock()
+
 		// Close messages in order to avoid new messages
 		close(bcs.messages)
 
-- 
2.43.0


From 9b2d1da00091538225d0c70746ee90a865f2464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 03/77] fix: release the versions lock when a message has an
 unregistered version

---
 pkg/extensions/versioning/broker_subscription.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 49a837c..4630ff6 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -104,6 +104,9 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 			// Get the correct channel based on the version
 			vc, exists := bs.versionsChannels[version]
 			if !exists {
+				// Unlock the versions
+				bs.versionsMutex.Unlock()
+
 				// Set context
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
-- 
2.43.0


From 772db7245cbf0f159931628cce60094390e17e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 04/77] fix: take the version wrapper's locks in one order

---
 pkg/extensions/versioning/broker_subscription.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 4630ff6..785ef9c 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -50,6 +50,10 @@ func (bs *brokerSubscription) createVersionListener(ctx context.Context, version
 }
 
 func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *versionSubcription) {
+	// Lock the channels to avoid conflict, always before the versions
+	bs.parent.channelsMutex.Lock()
+	defer bs.parent.channelsMutex.Unlock()
+
 	// Lock the versions to avoid conflict
 	bs.versionsMutex.Lock()
 	defer bs.versionsMutex.Unlock()
@@ -57,10 +61,6 @@ func (bs *brokerSubscription) removeVersionListener(ctx context.Context, vs *ver
 	// Remove the version from the channelsByBroker
 	delete(bs.versionsChannels, vs.version)
 
-	// Lock the channels to avoid conflict
-	bs.parent.channelsMutex.Lock()
-	defer bs.parent.channelsMutex.Unlock()
-
 	// If there is still version channels, do nothing
 	if len(bs.versionsChannels) > 0 {
 		return
-- 
2.43.0


From 7895a3b3053938e1c4b03cbae3e73a674c61529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 05/77] fix: do not accumulate rejected messages in the version
 listener's context

---
 pkg/extensions/versioning/broker_subscription.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/extensions/versioning/broker_subscription.go b/pkg/extensions/versioning/broker_subscription.go
index 785ef9c..54516c8 100644
--- a/pkg/extensions/versioning/broker_subscription.go
+++ b/pkg/extensions/versioning/broker_subscription.go
@@ -92,7 +92,7 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				if bs.parent.defaultVersion != nil {
 					version = *bs.parent.defaultVersion
 				} else {
-					ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+					ctx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 					bs.parent.logger.Error(ctx, "no version in the message and no default version")
 					continue
 				}
@@ -108,7 +108,7 @@ func (bs *brokerSubscription) launchListener(ctx context.Context) {
 				bs.versionsMutex.Unlock()
 
 				// Set context
-				ctx = context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
+				ctx := context.WithValue(ctx, extensions.ContextKeyIsBrokerMessage, msg)
 				ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, version)
 
 				// Log the error
-- 
2.43.0


From d65aa94e76e0d7d59a7dba54a1a935f17e72a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 06/77] fix: tag published messages with their version whatever
 their headers

---
 pkg/extensions/versioning/wrapper.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/versioning/wrapper.go b/pkg/extensions/versioning/wrapper.go
index e8a0b21..518561e 100644
--- a/pkg/extensions/versioning/wrapper.go
+++ b/pkg/extensions/versioning/wrapper.go
@@ -79,7 +79,13 @@ func WithVersionHeaderKey(headerKey string) WrapperOption {
 func (w *Wrapper) Publish(ctx context.Context, channel string, mw extensions.BrokerMessage) error {
 	// Add version to message
 	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(version string) {
-		mw.Headers[w.versionHeaderKey] = []byte(version)
+		// Copy the headers as they may be nil, or still used by the caller
+		headers := make(map[string][]byte, len(mw.Headers)+1)
+		for k, v := range mw.Headers {
+			headers[k] = v
+		}
+		headers[w.versionHeaderKey] = []byte(version)
+		mw.Headers = headers
 	})
 
 	// Send message
-- 
2.43.0


From 2084020f9209bb14e67737ae9c65a3b74b2eadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 07/77] fix: name the parameters type of a v2 channel like its
 definition

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 57a862e..c795767 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -137,7 +137,7 @@ func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
 func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     ctx context.Context,
     {{- if .Parameters}}
-    params {{namifyWithoutParam $key}}Parameters,
+    params {{namifyWithoutParam $value.Name}}Parameters,
     {{- end }}
     fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
 ) error {
@@ -245,7 +245,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
 // Unsubscribe{{operationName $value}} will unsubscribe messages from '{{$key}}' channel.
 // A timeout can be set in context to avoid blocking operation, if needed.
 {{- if .Parameters}}
-func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx context.Context, params {{namifyWithoutParam $key}}Parameters) {
+func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx context.Context, params {{namifyWithoutParam $value.Name}}Parameters) {
 {{- else}}
 func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx context.Context) {
 {{- end}}
@@ -276,7 +276,7 @@ func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx conte
 func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     ctx context.Context,
     {{- if .Parameters }}
-    params {{namifyWithoutParam $key}}Parameters,
+    params {{namifyWithoutParam $value.Name}}Parameters,
     {{- end}}
     msg {{(channelToMessage $value "publish").Name}},
 ) error {
@@ -325,7 +325,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
 func (c *UserController) WaitFor{{operationName $value}}(
     ctx context.Context,
     {{- if .Parameters}}
-    params {{namifyWithoutParam $key}}Parameters,
+    params {{namifyWithoutParam $value.Name}}Parameters,
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-- 
2.43.0


From 9c8a66cd6db5a87a17829603f8998db20d7199d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 08/77] fix: read the schema of v2 channel parameters

---
 pkg/asyncapi/v2/channel.go                     |  4 +++-
 pkg/asyncapi/v2/components.go                  |  4 +++-
 pkg/asyncapi/v2/parameter.go                   | 18 +++++++++++++++---
 .../generators/v2/templates/parameter.tmpl     |  8 ++++++--
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/pkg/asyncapi/v2/channel.go b/pkg/asyncapi/v2/channel.go
index 1bdff91..580d016 100644
--- a/pkg/asyncapi/v2/channel.go
+++ b/pkg/asyncapi/v2/channel.go
@@ -48,7 +48,9 @@ func (c *Channel) generateMetadata(path string) error {
 
 	// Generate parameters metadata
 	for n, p := range c.Parameters {
-		p.generateMetadata(n)
+		if err := p.generateMetadata(n); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/components.go b/pkg/asyncapi/v2/components.go
index e207b73..f6d1be0 100644
--- a/pkg/asyncapi/v2/components.go
+++ b/pkg/asyncapi/v2/components.go
@@ -31,7 +31,9 @@ func (c *Components) generateMetadata() error {
 
 	// For all parameters, generate param metadata
 	for name, param := range c.Parameters {
-		param.generateMetadata(name + "_Parameter")
+		if err := param.generateMetadata(name + "_Parameter"); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index e226e12..17367bf 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -9,7 +9,7 @@ type Parameter struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Description string  `json:"description"`
-	Schema      *Schema `json:"schema-name"`
+	Schema      *Schema `json:"schema"`
 	Location    string  `json:"location"`
 	Reference   string  `json:"$ref"`
 
@@ -19,10 +19,17 @@ type Parameter struct {
 	ReferenceTo *Parameter `json:"-"`
 }
 
-// generateMetadata generate metadata for the parameter.
-func (p *Parameter) generateMetadata(name string) {
+// generateMetadata generate metadata for the parameter and its children.
+func (p *Parameter) generateMetadata(name string) error {
 	// Add parameter name
 	p.Name = template.Namify(name)
+
+	// Generate schema metadata if present
+	if p.Schema != nil {
+		return p.Schema.generateMetadata(p.Name+"_Schema", true)
+	}
+
+	return nil
 }
 
 // setDependencies set dependencies for the parameter from specification.
@@ -36,5 +43,10 @@ func (p *Parameter) setDependencies(spec Specification) error {
 		p.ReferenceTo = refTo
 	}
 
+	// Set schema dependencies if present
+	if p.Schema != nil {
+		return p.Schema.setDependencies(spec)
+	}
+
 	return nil
 }
diff --git a/pkg/codegen/generators/v2/templates/parameter.tmpl b/pkg/codegen/generators/v2/templates/parameter.tmpl
index f714ad4..93070bc 100644
--- a/pkg/codegen/generators/v2/templates/parameter.tmpl
+++ b/pkg/codegen/generators/v2/templates/parameter.tmpl
@@ -9,8 +9,12 @@
 {{namify $.Name }} {{template "schema-name" $.Schema}}
 
 {{- /* Set parameter from reference if defined */}}
-{{- else if .ReferenceTo }}
-{{- template "parameter" $.ReferenceTo}}
+{{- else if and .ReferenceTo .ReferenceTo.Schema }}
+{{namify $.Name }} {{template "schema-name" $.ReferenceTo.Schema}}
+
+{{- /* Parameters are strings by default */}}
+{{- else }}
+{{namify $.Name }} string
 {{end -}}
 
 {{- end}}
-- 
2.43.0


From 6a544e48f7fb41e2b506a80c085765942472a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 09/77] fix: decode scalar payloads the way they are encoded

---
 .../v2/templates/marshaling/time.tmpl         |  4 +-
 .../generators/v2/templates/message.tmpl      | 50 ++++++++++++-------
 .../v3/templates/marshaling/time.tmpl         |  4 +-
 .../generators/v3/templates/message.tmpl      | 50 ++++++++++++-------
 4 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
index b83e7f9..9089cb2 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/time.tmpl
@@ -1,12 +1,12 @@
 {{define "marshaling-time" -}}
 // MarshalJSON will override the marshal as this is not a normal 'time.Time' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
 // UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 9b0e128..bf9f726 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -54,7 +54,12 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
             t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
@@ -64,18 +69,26 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             payload := string(bMsg.Payload)
         {{- end}}
     {{- else if eq $payload.Type "integer"}}
-        // Convert to integer
+        // Check length, then convert to integer
+        {{- $size := "8"}}{{if eq $payload.Format "int32"}}{{$size = "4"}}{{end}}
+        if len(bMsg.Payload) != {{$size}} {
+            return {{namify .Name}}{}, fmt.Errorf("%w: expected {{$size}} bytes for the payload, got %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+        }
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
-        // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        // Check length, then convert to float
+        {{- $size := "8"}}{{if eq $payload.Format "float"}}{{$size = "4"}}{{end}}
+        if len(bMsg.Payload) != {{$size}} {
+            return {{namify .Name}}{}, fmt.Errorf("%w: expected {{$size}} bytes for the payload, got %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+        }
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -85,11 +98,11 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- /* If that's a string, an integer or a number, there maybe some more operation to do */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.ReferenceTo.Name }}(payload)
+            msg.Payload = {{ namify .Payload.ReferenceTo.Name }}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
@@ -165,7 +178,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
+    {{- if not (or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number"))}}
         // Marshal payload to JSON
         payload, err := json.Marshal(msg.Payload)
         if err != nil {
@@ -173,7 +186,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -184,14 +197,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
-    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
+    {{- else if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to RFC3339 full-date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
+    {{- else if isDateOrDateTimeGenerated $payload.Format }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
diff --git a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
index b83e7f9..9089cb2 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/time.tmpl
@@ -1,12 +1,12 @@
 {{define "marshaling-time" -}}
 // MarshalJSON will override the marshal as this is not a normal 'time.Time' type
 func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
-    return json.Marshal(time.Time(t))
+    return json.Marshal({{template "schema-name" .}}(t))
 }
 
 // UnmarshalJSON will override the unmarshal as this is not a normal 'time.Time' type
 func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
-    var timeFormat time.Time
+    var timeFormat {{template "schema-name" .}}
     if err := json.Unmarshal(data, &timeFormat);  err != nil {
         return err
     }
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index e9dd4ed..182f7b2 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -63,7 +63,12 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
         // Convert to string
-        {{- if isDateOrDateTimeGenerated $payload.Format }}
+        {{- if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+            payload, err := civil.ParseDate(string(bMsg.Payload))
+            if err != nil {
+                return {{namify .Name}}{}, err
+            }
+        {{- else if isDateOrDateTimeGenerated $payload.Format }}
             t, err := time.Parse(time.RFC3339, string(bMsg.Payload))
             if err != nil {
                 return {{namify .Name}}{}, err
@@ -73,18 +78,26 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             payload := string(bMsg.Payload)
         {{- end}}
     {{- else if eq $payload.Type "integer"}}
-        // Convert to integer
+        // Check length, then convert to integer
+        {{- $size := "8"}}{{if eq $payload.Format "int32"}}{{$size = "4"}}{{end}}
+        if len(bMsg.Payload) != {{$size}} {
+            return {{namify .Name}}{}, fmt.Errorf("%w: expected {{$size}} bytes for the payload, got %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+        }
         {{- if and $payload.Format (eq $payload.Format "int32")}}
-            payload := int32(binary.LittleEndian.Uint32(bMsg.Payload))
+            payload := int32(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := int64(binary.LittleEndian.Uint64(bMsg.Payload))
+            payload := int64(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else if eq $payload.Type "number"}}
-        // Convert to float
-        {{- if and $payload.Format (eq $payload.Format "float") -}}
-            payload := math.Float32frombits(binary.LittleEndian.Uint32(bMsg.Payload))
+        // Check length, then convert to float
+        {{- $size := "8"}}{{if eq $payload.Format "float"}}{{$size = "4"}}{{end}}
+        if len(bMsg.Payload) != {{$size}} {
+            return {{namify .Name}}{}, fmt.Errorf("%w: expected {{$size}} bytes for the payload, got %d", extensions.ErrAsyncAPI, len(bMsg.Payload))
+        }
+        {{- if and $payload.Format (eq $payload.Format "float")}}
+            payload := math.Float32frombits(binary.BigEndian.Uint32(bMsg.Payload))
         {{- else}}
-            payload := math.Float64frombits(binary.LittleEndian.Uint64(bMsg.Payload))
+            payload := math.Float64frombits(binary.BigEndian.Uint64(bMsg.Payload))
         {{- end}}
     {{- else}}
         // Unmarshal payload to expected message payload format
@@ -94,11 +107,11 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         }
     {{- end -}}
 
-    {{- /* If that's a string, an integer or a numeric, there maybe some more operation to do */}}
-    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "numeric")}}
+    {{- /* If that's a string, an integer or a number, there maybe some more operation to do */}}
+    {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ .Payload.Follow.Name }}(payload)
+            msg.Payload = {{ namify .Payload.Follow.Name }}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
@@ -182,7 +195,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{- end}}
 
     {{/* Handle payload based on type */}}
-    {{- if or (eq $payload.Type "object") (eq $payload.Type "array")}}
+    {{- if not (or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number"))}}
         // Marshal payload to JSON
         payload, err := json.Marshal(msg.Payload)
         if err != nil {
@@ -190,7 +203,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         }
     {{- else if eq $payload.Type "integer"}}
         // Convert to []byte{}
-        {{- if and .Payload.Format (eq .Payload.Format "int32")}}
+        {{- if and $payload.Format (eq $payload.Format "int32")}}
             payload := make([]byte, 4)
             binary.BigEndian.PutUint32(payload, uint32(msg.Payload))
         {{- else}}
@@ -201,14 +214,17 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         // Convert to []byte{}
         {{- if and $payload.Format (eq $payload.Format "float")}}
             payload := make([]byte, 4)
-            binary.BigEndian.PutUint32(payload, math.Float32bits(msg.Payload))
+            binary.BigEndian.PutUint32(payload, math.Float32bits(float32(msg.Payload)))
         {{- else}}
             payload := make([]byte, 8)
-            binary.BigEndian.PutUint64(payload, math.Float64bits(msg.Payload))
+            binary.BigEndian.PutUint64(payload, math.Float64bits(float64(msg.Payload)))
         {{- end}}
-    {{- else if and (eq $payload.Type "string") (isDateOrDateTimeGenerated $payload.Format) }}
+    {{- else if and (isDateOrDateTimeGenerated $payload.Format) (eq $payload.Format "date") }}
+        // Convert to RFC3339 full-date and to []byte
+        payload := []byte(civil.Date(msg.Payload).String())
+    {{- else if isDateOrDateTimeGenerated $payload.Format }}
         // Convert to RFC3339 and to []byte
-        payload := []byte(msg.Payload.Format(time.RFC3339))
+        payload := []byte(time.Time(msg.Payload).Format(time.RFC3339))
     {{- else}}
         // Convert to []byte
         payload := []byte(msg.Payload)
-- 
2.43.0


From e5c16bf34e3563079c97172e93278ff08d8165d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 10/77] fix: encode and decode every type of message header

---
 .../generators/v2/templates/message.tmpl      | 85 +++++++++--------
 .../generators/v3/templates/message.tmpl      | 93 +++++++++----------
 2 files changed, 84 insertions(+), 94 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index bf9f726..384d01c 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -123,38 +123,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        h := {{$value.Type}}(v)
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
-                {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                    {{- end}}
-                {{- end}}
+                {{- $isPointer := isFieldPointer $headers $key $value }}
+                {{- $header := $value.Follow }}
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    {{- if eq $header.Format "date" }}
+                    t, err := civil.ParseDate(string(v))
+                    {{- else }}
+                    t, err := time.Parse(time.RFC3339, string(v))
+                    {{- end }}
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(t)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
+                {{- else if eq $header.Type "string" }}
+                    h := {{template "schema-name" $value}}(v)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
+                {{- else }}
+                    err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return msg, err
+                    }
+                {{- end }}
             {{- end}}
         default:
             // TODO: log unknown error
@@ -228,6 +218,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
+            {{- $header := $value.Follow }}
             {{- if $value.IsRequired }}
                 {{- $dereferenceOp := "" -}}
                 {{- if isFieldPointer $headers $key $value -}}
@@ -236,29 +227,37 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                     }
                 {{- end -}}
-                {{- if eq $value.Type "object" }}
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    {{- if eq $header.Format "date" }}
+                    headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+                    {{- else }}
+                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                    {{- end }}
+                {{- else if eq $header.Type "string" }}
+                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
+                {{- else }}
                     h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
                     if err != nil {
                         return extensions.BrokerMessage{}, err
                     }
                     headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
             {{- else}}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
+                    {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                        {{- if eq $header.Format "date" }}
+                        headers["{{$key}}"] = []byte(civil.Date(*msg.Headers.{{namify $key}}).String())
+                        {{- else }}
+                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                        {{- end }}
+                    {{- else if eq $header.Type "string" }}
+                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
+                    {{- else }}
+                        h, err := json.Marshal(msg.Headers.{{ namify $key}})
                         if err != nil {
                             return extensions.BrokerMessage{}, err
                         }
                         headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
                 }
             {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 182f7b2..41cdaee 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -132,46 +132,28 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headers := .Headers -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
-                {{- if isFieldPointer $headers $key $value }}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = &t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        h := {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        h := {{$value.Type}}(v)
-                        {{- end}}
-                        msg.Headers.{{ namify $key}} = &h
-                    {{- end}}
-                {{- else}}
-                    {{- if eq $value.Type "object" }}
-                        err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
-                        if err != nil {
-                            return msg, err
-                        }
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        t, err := time.Parse(time.RFC3339, string(v))
-                        if err != nil {
-                            return msg, err
-                        }
-                        msg.Headers.{{ namify $key}} = t
-                    {{- else}}
-                        {{- if $value.Reference }}
-                        msg.Headers.{{ namify $key}} = {{$value.ReferenceTo.Name}}(v)
-                        {{- else }}
-                        msg.Headers.{{ namify $key}} = {{$value.Type}}(v)
-                        {{- end}}
-                    {{- end}}
-                {{- end}}
+                {{- $isPointer := isFieldPointer $headers $key $value }}
+                {{- $header := $value.Follow }}
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    {{- if eq $header.Format "date" }}
+                    t, err := civil.ParseDate(string(v))
+                    {{- else }}
+                    t, err := time.Parse(time.RFC3339, string(v))
+                    {{- end }}
+                    if err != nil {
+                        return msg, err
+                    }
+                    h := {{template "schema-name" $value}}(t)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
+                {{- else if eq $header.Type "string" }}
+                    h := {{template "schema-name" $value}}(v)
+                    msg.Headers.{{ namify $key}} = {{if $isPointer}}&{{end}}h
+                {{- else }}
+                    err := json.Unmarshal(v, &msg.Headers.{{ namify $key}})
+                    if err != nil {
+                        return msg, err
+                    }
+                {{- end }}
             {{- end}}
         default:
             // TODO: log unknown error
@@ -246,6 +228,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
+            {{- $header := $value.Follow }}
             {{- if $value.IsRequired }}
                 {{- $dereferenceOp := "" -}}
                 {{- if isFieldPointer $headers $key $value -}}
@@ -254,29 +237,37 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                         return extensions.BrokerMessage{}, fmt.Errorf("field {{ namify $key}} should not be nil")
                      }
                 {{- end -}}
-                {{- if eq $value.Type "object" }}
+                {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                    {{- if eq $header.Format "date" }}
+                    headers["{{$key}}"] = []byte(civil.Date({{ $dereferenceOp }}msg.Headers.{{namify $key}}).String())
+                    {{- else }}
+                    headers["{{$key}}"] = []byte(time.Time({{ $dereferenceOp }}msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                    {{- end }}
+                {{- else if eq $header.Type "string" }}
+                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
+                {{- else }}
                     h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
                     if err != nil {
                         return extensions.BrokerMessage{}, err
                     }
                     headers["{{$key}}"] = h
-                {{- else if isDateOrDateTimeGenerated $value.Format }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                {{- else }}
-                    headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- end }}
             {{- else}}
                 if msg.Headers.{{namify $key}} != nil {
-                    {{- if eq $value.Type "object" }}
-                        h, err := json.Marshal(*msg.Headers.{{ namify $key}})
+                    {{- if and (eq $header.Type "string") (isDateOrDateTimeGenerated $header.Format) }}
+                        {{- if eq $header.Format "date" }}
+                        headers["{{$key}}"] = []byte(civil.Date(*msg.Headers.{{namify $key}}).String())
+                        {{- else }}
+                        headers["{{$key}}"] = []byte(time.Time(*msg.Headers.{{namify $key}}).Format(time.RFC3339))
+                        {{- end }}
+                    {{- else if eq $header.Type "string" }}
+                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
+                    {{- else }}
+                        h, err := json.Marshal(msg.Headers.{{ namify $key}})
                         if err != nil {
                             return extensions.BrokerMessage{}, err
                         }
                         headers["{{$key}}"] = h
-                    {{- else if isDateOrDateTimeGenerated $value.Format }}
-                        headers["{{$key}}"] = []byte(msg.Headers.{{namify $key}}.Format(time.RFC3339))
-                    {{- else }}
-                        headers["{{$key}}"] = []byte(*msg.Headers.{{namify $key}})
                     {{- end }}
                 }
             {{- end }}
-- 
2.43.0


From 48ffac445ba0ab5b8588214d3a20ff7f80370e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 11/77] fix: accept v3 message headers given by reference

---
 pkg/asyncapi/v3/message.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 5cea676..4a92b78 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -214,10 +214,19 @@ func (msg *Message) generateHeadersMetadata() error {
 		return nil
 	}
 
-	if err := msg.Headers.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
+	return msg.Headers.generateMetadata(msg.Name, "Headers", nil, false)
+}
+
+func (msg *Message) setHeadersDependencies(spec Specification) error {
+	if msg.Headers == nil {
+		return nil
+	}
+
+	if err := msg.Headers.setDependencies(spec); err != nil {
 		return err
 	}
 
+	// Check Headers is an object, after processing
 	if msg.Headers.Follow().Type != SchemaTypeIsObject.String() {
 		return fmt.Errorf(
 			"%w: %q headers must be an object, is %q",
@@ -227,14 +236,6 @@ func (msg *Message) generateHeadersMetadata() error {
 	return nil
 }
 
-func (msg *Message) setHeadersDependencies(spec Specification) error {
-	if msg.Headers == nil {
-		return nil
-	}
-
-	return msg.Headers.setDependencies(spec)
-}
-
 func (msg *Message) generateOneOfMetadata() error {
 	for i, v := range msg.OneOf {
 		if err := v.generateMetadata(msg.Name, "", &i); err != nil {
-- 
2.43.0


From afa04f7933fde82a0182b0eea6af58bab7af549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 12/77] fix: define the payload type of messages referencing a
 composed schema

---
 pkg/codegen/generators/v2/templates/message.tmpl | 7 +++----
 pkg/codegen/generators/v3/templates/message.tmpl | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 384d01c..5437c57 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -1,13 +1,12 @@
 {{define "message" -}}
 
-{{- if and .Headers (not .Headers.ReferenceTo) }}
+{{- if and .Headers (eq .Headers.Type "object") }}
 {{template "schema-definition" .Headers}}
 {{- end}}
 
-{{- /* Generate payload definition if payload is not a reference and if is an object/array */ -}}
+{{- /* Generate payload definition if payload is an object/array, as it is not the case for a plain reference */ -}}
 {{- if and .Payload 
-        (or (eq .Payload.Type "object") (eq .Payload.Type "array"))
-        (not .Payload.ReferenceTo) }}
+        (or (eq .Payload.Type "object") (eq .Payload.Type "array")) }}
 {{template "schema-definition" .Payload}}
 {{- end}}
 
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 41cdaee..50432fc 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -9,14 +9,13 @@
 
 {{else}}
 
-{{- if and .Headers (not .Headers.ReferenceTo) }}
+{{- if and .Headers (eq .Headers.Type "object") }}
 {{template "schema-definition" .Headers}}
 {{- end}}
 
-{{- /* Generate payload definition if payload is not a reference and if is an object/array */ -}}
+{{- /* Generate payload definition if payload is an object/array, as it is not the case for a plain reference */ -}}
 {{- if and .Payload 
-        (or (eq .Payload.Type "object") (eq .Payload.Type "array"))
-        (not .Payload.ReferenceTo) }}
+        (or (eq .Payload.Type "object") (eq .Payload.Type "array")) }}
 {{template "schema-definition" .Payload}}
 {{- end}}
 
-- 
2.43.0


From f31221f94a430e57f909ae8dcb0bf20f31347d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 13/77] fix: return the error ending the wait for a reply

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 5 +++--
 pkg/codegen/generators/v3/templates/controller.tmpl | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index c795767..64780a0 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -365,6 +365,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{(channelToMessage $value "subscribe").Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -408,8 +409,8 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         // Acknowledge message
         acknowledgeableBrokerMessage.Ack()
 
-        // If message doesn't have corresponding correlation ID, then continue
-        if publishMsg.CorrelationID() != msg.CorrelationID() {
+        // If message can't be decoded or doesn't have corresponding correlation ID, then continue
+        if err != nil || publishMsg.CorrelationID() != msg.CorrelationID() {
             return nil, nil
         }
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 902c2fc..8d76635 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -444,6 +444,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
+            return {{channelToMessageTypeName .Reply.Channel}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -492,8 +493,8 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         // Acknowledge the message
         acknowledgeableBrokerMessage.Ack()
 
-        // If message doesn't have corresponding correlation ID, then ingore and continue
-        if msg.CorrelationID() != rmsg.CorrelationID() {
+        // If message can't be decoded or doesn't have corresponding correlation ID, then ignore and continue
+        if err != nil || msg.CorrelationID() != rmsg.CorrelationID() {
             return nil, nil
         }
         {{- else}}
-- 
2.43.0


From b218b0b230aef9cbc791a67b123554cbb03dc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 14/77] fix: acknowledge replies of operations without
 correlation ID

---
 pkg/codegen/generators/v3/templates/controller.tmpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 8d76635..7c91b11 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -500,6 +500,9 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         {{- else}}
         // There is correlation no ID, so it will automatically return at
         // the first received message.
+
+        // Acknowledge the message
+        acknowledgeableBrokerMessage.Ack()
         {{- end}}
 
         // Set context with received values as it is the expected message
-- 
2.43.0


From eae01405a85886f24135421a9aea63a12d9300fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 15/77] fix: unsubscribe from channels with parameters when
 unsubscribing from all

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 8 ++++++++
 pkg/codegen/generators/v3/templates/controller.tmpl | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 64780a0..cfd8a3d 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -127,6 +127,14 @@ func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
     c.Unsubscribe{{operationName $value}}(ctx)
     {{- end}}
     {{- end}}
+
+    // Stop the remaining subscriptions, i.e. those of channels with parameters
+    for path, sub := range c.subscriptions {
+        subCtx := add{{ .Prefix }}ContextValues(ctx, path)
+        sub.Cancel(subCtx)
+        delete(c.subscriptions, path)
+        c.logger.Info(subCtx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 7c91b11..7d352e0 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -128,6 +128,14 @@ func (c *{{ .Prefix }}Controller) UnsubscribeFromAllChannels(ctx context.Context
     c.UnsubscribeFrom{{ namify $value.Follow.Name }}(ctx)
     {{- end}}
     {{- end}}
+
+    // Stop the remaining subscriptions, i.e. those of channels with parameters
+    for addr, sub := range c.subscriptions {
+        subCtx := add{{ .Prefix }}ContextValues(ctx, addr)
+        sub.Cancel(subCtx)
+        delete(c.subscriptions, addr)
+        c.logger.Info(subCtx, "Unsubscribed from channel")
+    }
 }
 {{- end}}
 
-- 
2.43.0


From c6ed41452de1fd4382f992b7c5d1063fe5ae47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 16/77] fix: marshal and unmarshal additional properties of any
 type and name

---
 .../marshaling/additional_properties.tmpl     | 32 +++++++++++++++----
 .../marshaling/additional_properties.tmpl     | 14 ++++++--
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
index 314980c..7839e1c 100644
--- a/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v2/templates/marshaling/additional_properties.tmpl
@@ -13,10 +13,26 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     // Remove the end of the json (i.e. '}')
     b = b[:len(b)-1]
 
-    // Add additional properties
-    for k, v := range t.AdditionalProperties {
-        b = append(b,[]byte(fmt.Sprintf(",%q:%q", k, v))...)
-    }
+	// When there are no properties, we cant start with a separator
+	needSeparator := len(b) > 1
+
+	// Add additional properties
+	for k, v := range t.AdditionalProperties {
+    	if needSeparator {
+    	    b = append(b, ',')
+    	}
+    	needSeparator = true
+	
+    	kBytes, err := json.Marshal(k)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	vBytes, err := json.Marshal(v)
+    	if err != nil {
+    	    return nil, err
+    	}
+    	b = append(b, fmt.Sprintf("%s:%s", kBytes, vBytes)...)
+	}
 
     // Close JSON and return
     return append(b, []byte("}")...) , nil
@@ -27,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -49,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var property {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &property); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = property
         }
     }
 
diff --git a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
index d520a29..7839e1c 100644
--- a/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
+++ b/pkg/codegen/generators/v3/templates/marshaling/additional_properties.tmpl
@@ -23,11 +23,15 @@ func (t {{ .Name }}) MarshalJSON() ([]byte, error) {
     	}
     	needSeparator = true
 	
+    	kBytes, err := json.Marshal(k)
+    	if err != nil {
+    	    return nil, err
+    	}
     	vBytes, err := json.Marshal(v)
     	if err != nil {
     	    return nil, err
     	}
-    	b = append(b, fmt.Sprintf("%q:%s", k, vBytes)...)
+    	b = append(b, fmt.Sprintf("%s:%s", kBytes, vBytes)...)
 	}
 
     // Close JSON and return
@@ -39,7 +43,7 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
     type alias {{ .Name }}
 
     // Unmarshal to map to get all fields
-    var m map[string]{{template "schema-name" .AdditionalProperties}}
+    var m map[string]json.RawMessage
     if err := json.Unmarshal(data, &m);  err != nil {
         return err
     }
@@ -61,7 +65,11 @@ func (t *{{ .Name }}) UnmarshalJSON(data []byte) error {
                     continue
             {{ end -}}
         default:
-            t.AdditionalProperties[k] = v
+            var property {{template "schema-name" .AdditionalProperties}}
+            if err := json.Unmarshal(v, &property); err != nil {
+                return err
+            }
+            t.AdditionalProperties[k] = property
         }
     }
 
-- 
2.43.0


From 55c7453c1c5c2b1f19ffe6d1c21e4952f4c4f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 17/77] fix: use the message of the right operation on v2
 channels with both

---
 .../generators/v2/templates/controller.tmpl   | 31 ++++++++++---------
 .../generators/v2/templates/subscriber.tmpl   |  5 ++-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index cfd8a3d..47b8f62 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -1,3 +1,6 @@
+{{- /* The application receives what is published on a channel and sends what is subscribed */}}
+{{- $received := "subscribe" }}{{ $sent := "publish" }}
+{{- if eq .Prefix "App" }}{{ $received = "publish" }}{{ $sent = "subscribe" }}{{ end -}}
 // {{ .Prefix }}Controller is the structure that provides publishing capabilities to the
 // developer and and connect the broker with the {{ .Prefix }}
 type {{ .Prefix }}Controller struct {
@@ -147,7 +150,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
     {{- if .Parameters}}
     params {{namifyWithoutParam $value.Name}}Parameters,
     {{- end }}
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error,
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
@@ -197,7 +200,7 @@ func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
 func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
-    fn func (ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error,
+    fn func (ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error,
 ) (stop bool, err error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
@@ -220,12 +223,12 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     // Execute middlewares before handling the message
     if err := c.executeMiddlewares(msgCtx, &acknowledgeableBrokerMessage.BrokerMessage, func(middlewareCtx context.Context) error {
         // Process message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return err
         }
 
-        {{if ne (channelToMessage $value "subscribe").CorrelationIDLocation "" -}}
+        {{if ne (channelToMessage $value $received).CorrelationIDLocation "" -}}
             // Add correlation ID to context if it exists
             if id := msg.CorrelationID(); id != "" {
                 middlewareCtx = context.WithValue(middlewareCtx, extensions.ContextKeyIsCorrelationID, id)
@@ -286,12 +289,12 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     {{- if .Parameters }}
     params {{namifyWithoutParam $value.Name}}Parameters,
     {{- end}}
-    msg {{(channelToMessage $value "publish").Name}},
+    msg {{(channelToMessage $value $sent).Name}},
 ) error {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $sent).CorrelationIDLocation "" -}}
     // Set correlation ID if it does not exist
     if id := msg.CorrelationID(); id == "" {
         msg.SetCorrelationID(uuid.New().String())
@@ -301,7 +304,7 @@ func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     // Set context
     ctx = add{{ $.Prefix }}ContextValues(ctx, path)
     ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
-    {{if ne (channelToMessage $value "publish").CorrelationIDLocation "" -}}
+    {{if ne (channelToMessage $value $sent).CorrelationIDLocation "" -}}
     ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{- end}}
 
@@ -337,7 +340,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     {{- end}}
     publishMsg MessageWithCorrelationID,
     pub func(ctx context.Context) error,
-) ({{(channelToMessage $value "subscribe").Name}}, error) {
+) ({{(channelToMessage $value $received).Name}}, error) {
     // Get channel path
     path := {{ generateChannelPath $value }}
 
@@ -349,7 +352,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
     sub, err := c.broker.Subscribe(ctx, path)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $received).Name}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -364,7 +367,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
 
     // Execute callback for publication
     if err = pub(ctx); err != nil {
-        return {{(channelToMessage $value "subscribe").Name}}{}, err
+        return {{(channelToMessage $value $received).Name}}{}, err
     }
 
     // Wait for corresponding response
@@ -373,7 +376,7 @@ func (c *UserController) WaitFor{{operationName $value}}(
         msg, err := c.waitFor{{operationName $value}}NextMessage(ctx, path, sub, publishMsg)
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{(channelToMessage $value "subscribe").Name}}{}, err
+            return {{(channelToMessage $value $received).Name}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -390,7 +393,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
     path string,
     sub extensions.BrokerChannelSubscription,
     publishMsg MessageWithCorrelationID,
-) (*{{(channelToMessage $value "subscribe").Name}}, error) {
+) (*{{(channelToMessage $value $received).Name}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, path)
@@ -409,7 +412,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Get new message
-        msg, err := brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err := brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -431,7 +434,7 @@ func (c *UserController) waitFor{{operationName $value}}NextMessage(
         }
 
         // Return the message to the caller from the broker that could have been modified by middlewares
-        msg, err = brokerMessageTo{{(channelToMessage $value "subscribe").Name}}(acknowledgeableBrokerMessage.BrokerMessage)
+        msg, err = brokerMessageTo{{(channelToMessage $value $received).Name}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index d429d44..9a03bf1 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -1,9 +1,12 @@
+{{- /* The application receives what is published on a channel */}}
+{{- $received := "subscribe" }}
+{{- if eq .Prefix "App" }}{{ $received = "publish" }}{{ end -}}
 {{if .MethodCount -}}
 // {{ .Prefix }}Subscriber represents all handlers that are expecting messages for {{ .Prefix }}
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
     // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
-    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value "subscribe").Name}}) error
+    {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error
 {{end}}
 }
 {{- end}}
-- 
2.43.0


From 38808728707b497bc9e82a8bc074c0c48a6b4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 18/77] fix: do not keep pointer and date options of earlier
 generations

---
 pkg/codegen/codegen.go                         | 10 +++-------
 pkg/codegen/generators/v2/templates/helpers.go | 16 +++++++++-------
 pkg/codegen/generators/v3/templates/helpers.go | 16 +++++++++-------
 pkg/utils/template/helpers.go                  | 12 +++++++-----
 4 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index df377fb..a2a03fd 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -90,13 +90,9 @@ func (cg CodeGen) Generate(opt options.Options) error {
 		return err
 	}
 
-	if opt.IgnoreStringFormat {
-		template.DisableDateOrTimeGeneration()
-	}
-	if opt.ForcePointers {
-		templatesv2.ForcePointerOnFields()
-		templatesv3.ForcePointerOnFields()
-	}
+	template.SetDateOrTimeGeneration(!opt.IgnoreStringFormat)
+	templatesv2.SetForcePointerOnFields(opt.ForcePointers)
+	templatesv3.SetForcePointerOnFields(opt.ForcePointers)
 
 	// Process Specification
 	if err := cg.Specification.Process(); err != nil {
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 8e4d603..2a249e2 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -141,15 +141,17 @@ func OperationName(channel asyncapi.Channel) string {
 	return templateutil.Namify(name)
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
-	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
+// forcePointers tells if all fields (except arrays) are generated as pointers.
+var forcePointers = false
+
+func isFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+	return (forcePointers || !(IsRequired(parent, field) || schema.IsRequired)) && schema.Type != "array"
 }
 
-// ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
-func ForcePointerOnFields() {
-	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
-		return schema.Type != "array"
-	}
+// SetForcePointerOnFields sets if the generation of all fields as pointers,
+// except for arrays, is forced.
+func SetForcePointerOnFields(force bool) {
+	forcePointers = force
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index b37b96a..adbf88f 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -127,15 +127,17 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	return sprint[:len(sprint)-1] + ")"
 }
 
-var isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
-	return !(IsRequired(parent, field) || schema.IsRequired) && schema.Type != "array"
+// forcePointers tells if all fields (except arrays) are generated as pointers.
+var forcePointers = false
+
+func isFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
+	return (forcePointers || !(IsRequired(parent, field) || schema.IsRequired)) && schema.Type != "array"
 }
 
-// ForcePointerOnFields is used to force the generation of all fields as pointers, except for arrays.
-func ForcePointerOnFields() {
-	isFieldPointer = func(parent asyncapi.Schema, field string, schema asyncapi.Schema) bool {
-		return schema.Type != "array"
-	}
+// SetForcePointerOnFields sets if the generation of all fields as pointers,
+// except for arrays, is forced.
+func SetForcePointerOnFields(force bool) {
+	forcePointers = force
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index b9553c5..8364c17 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -144,13 +144,15 @@ func CutSuffix(s, suffix string) string {
 	return s
 }
 
-var isDateOrDateTimeGenerated = func(format string) bool {
-	return format == "date" || format == "date-time"
+var dateOrTimeGeneration = true
+
+func isDateOrDateTimeGenerated(format string) bool {
+	return dateOrTimeGeneration && (format == "date" || format == "date-time")
 }
 
-// DisableDateOrTimeGeneration is used to disable the generation of date/date-time formats within types.
-func DisableDateOrTimeGeneration() {
-	isDateOrDateTimeGenerated = func(_ string) bool { return false }
+// SetDateOrTimeGeneration sets if the date/date-time formats are generated within types.
+func SetDateOrTimeGeneration(enabled bool) {
+	dateOrTimeGeneration = enabled
 }
 
 // HelpersFunctions returns the functions that can be used as helpers
-- 
2.43.0


From 655ceac9f7cb30a37feff8594e607dfc09381806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 19/77] fix: name channel parameters the same way whatever the
 naming scheme

---
 pkg/codegen/generators/v2/templates/helpers.go | 2 +-
 pkg/codegen/generators/v3/templates/helpers.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 2a249e2..ac9a79a 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -118,7 +118,7 @@ func GenerateChannelPath(ch asyncapi.Channel) string {
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(m))
+		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(strings.Trim(m, "{}")))
 	}
 
 	return sprint[:len(sprint)-1] + ")"
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index adbf88f..531fd65 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -121,7 +121,7 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(m))
+		sprint += fmt.Sprintf("params.%s,", templateutil.Namify(strings.Trim(m, "{}")))
 	}
 
 	return sprint[:len(sprint)-1] + ")"
-- 
2.43.0


From a5f7b964b6d060ddb6929e6b37bbadd41519a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 20/77] fix: handle forced pointers at correlation ID and reply
 address locations

---
 pkg/codegen/generators/v2/templates/helpers.go      | 7 +++++++
 pkg/codegen/generators/v2/templates/message.tmpl    | 8 ++++----
 pkg/codegen/generators/v3/templates/controller.tmpl | 4 ++--
 pkg/codegen/generators/v3/templates/helpers.go      | 7 +++++++
 pkg/codegen/generators/v3/templates/message.tmpl    | 8 ++++----
 5 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index ac9a79a..7de6490 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -154,6 +154,12 @@ func SetForcePointerOnFields(force bool) {
 	forcePointers = force
 }
 
+// isLocationPointer tells if the field at a location (correlation ID, reply
+// address) is generated as a pointer, depending on the location being required.
+func isLocationPointer(required bool) bool {
+	return forcePointers || !required
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -162,6 +168,7 @@ func HelpersFunctions() template.FuncMap {
 		"channelToMessage":               ChannelToMessage,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"isLocationPointer":              isLocationPointer,
 		"generateChannelPath":            GenerateChannelPath,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
 		"operationName":                  OperationName,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 5437c57..91a5be9 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -34,7 +34,7 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if ne $.CorrelationIDLocation "" -}}
     // Set correlation ID
     u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
     return msg
@@ -275,7 +275,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if ne $.CorrelationIDLocation "" -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
+    {{if not (isLocationPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.CorrelationIDLocation}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} != nil{
@@ -288,7 +288,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -296,7 +296,7 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.CorrelationIDLocation}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
 {{- end }}
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 7d352e0..d4ede52 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -272,7 +272,7 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
     // Publish reply
     {{- /* Use reply address if needed */}}
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
+        {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
             chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
             if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
@@ -400,7 +400,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
 ) ({{channelToMessageTypeName .Reply.Channel}}, error) {
     // Get receiving channel address
     {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if .Reply.Address.LocationRequired }}
+        {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
             addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
         {{- else }}
             if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 531fd65..960147d 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -140,6 +140,12 @@ func SetForcePointerOnFields(force bool) {
 	forcePointers = force
 }
 
+// isLocationPointer tells if the field at a location (correlation ID, reply
+// address) is generated as a pointer, depending on the location being required.
+func isLocationPointer(required bool) bool {
+	return forcePointers || !required
+}
+
 // HelpersFunctions returns the functions that can be used as helpers
 // in a golang template.
 func HelpersFunctions() template.FuncMap {
@@ -150,6 +156,7 @@ func HelpersFunctions() template.FuncMap {
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"isRequired":                     IsRequired,
 		"isFieldPointer":                 isFieldPointer,
+		"isLocationPointer":              isLocationPointer,
 		"generateChannelAddr":            GenerateChannelAddr,
 		"generateChannelAddrFromOp":      GenerateChannelAddrFromOp,
 		"referenceToStructAttributePath": ReferenceToStructAttributePath,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 50432fc..c8bccfc 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -43,7 +43,7 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
     u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired}}&{{end}}u
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
     return msg
@@ -285,7 +285,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 {{if $.HaveCorrelationID -}}
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
-    {{if $.CorrelationIDRequired -}}
+    {{if not (isLocationPointer $.CorrelationIDRequired) -}}
         return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
     {{- else -}}
     if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
@@ -298,7 +298,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -306,7 +306,7 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if not $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
 
-- 
2.43.0


From c692730ed97931568c1413f9e4c37f9c10daa80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 21/77] fix: look for required correlation IDs in referenced
 headers and payloads

---
 pkg/asyncapi/v2/message.go |  3 +++
 pkg/asyncapi/v3/message.go | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index e83b756..d7cd5a4 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -109,6 +109,9 @@ func (msg *Message) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Process correlation ID again, now that references are resolved
+	msg.generateCorrelationIDMetadata()
+
 	// Set CorrelationID dependencies
 	return msg.setCorrelationIDDependencies(spec)
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 4a92b78..e8c63fc 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -160,7 +160,15 @@ func (msg *Message) setDependencies(spec Specification) error {
 	}
 
 	// Set traits dependencies
-	return msg.setTraitsDependencies(spec)
+	if err := msg.setTraitsDependencies(spec); err != nil {
+		return err
+	}
+
+	// Process correlation ID again, now that references are resolved
+	msg.createCorrelationIDFieldIfMissing()
+	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
+
+	return nil
 }
 
 func (msg *Message) setReference(spec Specification) error {
-- 
2.43.0


From 4908feb6c4c3b7f959d04273ee9eda8fc0a7831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 22/77] fix: name the default headers and payload of a message
 after it

---
 pkg/asyncapi/v2/message.go | 10 +++++++---
 pkg/asyncapi/v3/message.go | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index d7cd5a4..2a6a88e 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -263,7 +263,11 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		if t == MessageFieldIsHeader {
+			(*placeholder).Name = template.Namify(msg.Name + "_Headers")
+		} else {
+			(*placeholder).Name = template.Namify(msg.Name + "_Payload")
+		}
 		(*placeholder).Type = SchemaTypeIsObject.String()
 		fallthrough
 	default:
@@ -288,11 +292,11 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = correlationIDParent.Name + template.Namify(v)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index e8c63fc..37b06ca 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -348,7 +348,11 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 	case (*placeholder) == nil: // If there is no header and no reference
 		// Create a default one for the message
 		(*placeholder) = utils.ToPointer(NewSchema())
-		(*placeholder).Name = MessageFieldIsHeader.String()
+		if t == MessageFieldIsHeader {
+			(*placeholder).Name = generateFullName(msg.Name, MessageHeadersSuffix, "", nil)
+		} else {
+			(*placeholder).Name = generateFullName("", msg.Name+"_"+MessagePayloadSuffix, "", nil)
+		}
 		(*placeholder).Type = SchemaTypeIsObject.String()
 		fallthrough
 	default:
@@ -373,11 +377,11 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 		if !exists { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
-			child.Name = v
+			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
 			if i == len(path)-2 { // As there is -1 in the loop slice
 				child.Type = SchemaTypeIsString.String()
 			} else {
-				child.Type = MessageFieldIsHeader.String()
+				child.Type = SchemaTypeIsObject.String()
 			}
 
 			// Add it to parent
-- 
2.43.0


From 11ea71cab004b89447bef428abd4f4a2bf9d9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 23/77] fix: define the objects found in arrays of arrays

---
 pkg/codegen/generators/v2/templates/helpers.go | 9 +++++----
 pkg/codegen/generators/v3/templates/helpers.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 7de6490..a5b87ec 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Go down to the items of arrays, that can be nested
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 960147d..ccb78ab 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -28,12 +28,13 @@ func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
 	// Only keep object schemas
 	filteredSchemas := make([]*asyncapi.Schema, 0, len(allSchemas))
 	for _, schema := range allSchemas {
+		// Go down to the items of arrays, that can be nested
+		for schema.Type == asyncapi.SchemaTypeIsArray.String() && schema.Items != nil {
+			schema = schema.Items
+		}
+
 		if schema.Type == asyncapi.SchemaTypeIsObject.String() {
 			filteredSchemas = append(filteredSchemas, schema)
-		} else if schema.Type == asyncapi.SchemaTypeIsArray.String() &&
-			schema.Items != nil &&
-			schema.Items.Type == asyncapi.SchemaTypeIsObject.String() {
-			filteredSchemas = append(filteredSchemas, schema.Items)
 		}
 	}
 
-- 
2.43.0


From 9ea5d34a7f4619a534bd65dd863b9a5caa07c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 24/77] fix: do not depend on the iteration order of maps

---
 pkg/asyncapi/v2/extensions.go                  |  5 ++++-
 pkg/asyncapi/v3/channel.go                     |  6 ++++--
 pkg/asyncapi/v3/extensions.go                  |  5 ++++-
 pkg/codegen/generators/v2/templates/helpers.go |  5 ++++-
 pkg/codegen/generators/v3/templates/helpers.go |  5 ++++-
 pkg/utils/map.go                               | 15 +++++++++++++++
 6 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 29861a5..8f5e360 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -3,6 +3,8 @@ package asyncapiv2
 import (
 	"fmt"
 	"strings"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // Extensions holds additional properties defined for asyncapi-codegen
@@ -108,10 +110,11 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
 	imports := make([]string, 0, len(importsSet))
-	for path, name := range importsSet {
+	for _, path := range utils.SortedKeys(importsSet) {
 		if path == "" {
 			continue
 		}
+		name := importsSet[path]
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
 	return imports
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 7e27d0d..a05dd5e 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 const (
@@ -154,8 +155,9 @@ func (ch *Channel) Follow() *Channel {
 
 // GetMessage will return the channel message.
 func (ch Channel) GetMessage() (*Message, error) {
-	for _, m := range ch.Follow().Messages {
-		return m.Follow(), nil // TODO: change
+	messages := ch.Follow().Messages
+	for _, k := range utils.SortedKeys(messages) {
+		return messages[k].Follow(), nil // TODO: change
 	}
 	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 }
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index dbe16bf..b76650c 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -3,6 +3,8 @@ package asyncapiv3
 import (
 	"fmt"
 	"strings"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/utils"
 )
 
 // Extensions holds additional properties defined for asyncapi-codegen
@@ -102,10 +104,11 @@ func (s Specification) CustomImports() ([]string, error) {
 
 func importsMapToList(importsSet map[GoTypeImportPath]GoTypeImportName) []string {
 	imports := make([]string, 0, len(importsSet))
-	for path, name := range importsSet {
+	for _, path := range utils.SortedKeys(importsSet) {
 		if path == "" {
 			continue
 		}
+		name := importsSet[path]
 		imports = append(imports, strings.TrimSpace(fmt.Sprintf(`%s "%s"`, name, path)))
 	}
 	return imports
diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index a5b87ec..eeb8757 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -15,7 +15,10 @@ import (
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	allSchemas := make([]*asyncapi.Schema, 0, len(s.Properties))
+	for _, k := range utils.SortedKeys(s.Properties) {
+		allSchemas = append(allSchemas, s.Properties[k])
+	}
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index ccb78ab..26534bb 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -15,7 +15,10 @@ import (
 // GetChildrenObjectSchemas will return all the children object schemas of a
 // schema, only from first level and without AnyOf, AllOf and OneOf.
 func GetChildrenObjectSchemas(s asyncapi.Schema) []*asyncapi.Schema {
-	allSchemas := utils.MapToList(s.Properties)
+	allSchemas := make([]*asyncapi.Schema, 0, len(s.Properties))
+	for _, k := range utils.SortedKeys(s.Properties) {
+		allSchemas = append(allSchemas, s.Properties[k])
+	}
 
 	if s.Items != nil {
 		allSchemas = append(allSchemas, s.Items)
diff --git a/pkg/utils/map.go b/pkg/utils/map.go
index 3459302..816d37b 100644
--- a/pkg/utils/map.go
+++ b/pkg/utils/map.go
@@ -1,5 +1,10 @@
 package utils
 
+import (
+	"cmp"
+	"slices"
+)
+
 // MapToList will change a map to a list.
 func MapToList[T1 comparable, T2 any](m map[T1]T2) []T2 {
 	l := make([]T2, 0, len(m))
@@ -8,3 +13,13 @@ func MapToList[T1 comparable, T2 any](m map[T1]T2) []T2 {
 	}
 	return l
 }
+
+// SortedKeys returns the keys of a map in ascending order.
+func SortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
+	keys := make([]K, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+	return keys
+}
-- 
2.43.0


From 3bb8946adc2e99e4b96f12249e6487cdffb5bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 25/77] fix: generate the replies of every operation replying
 on a channel

---
 pkg/codegen/generators/v3/common.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 42878b2..2e1fa5e 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -43,8 +43,7 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 
 		// Add a artificial operation for reply if the controller should respond to a reply
 		if shouldControllerRespondToReply(side, op) {
-			ch := op.Reply.Channel.Follow()
-			ao.Send[ch.Name] = op.ReplyIs
+			ao.Send[op.ReplyIs.Name] = op.ReplyIs
 		}
 	}
 
-- 
2.43.0


From f1bf601899d208621076fa6805b176c739aa6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 26/77] fix: resolve v3 correlation IDs given by reference

---
 pkg/asyncapi/v3/correlation_id.go             | 16 +++++++++----
 pkg/asyncapi/v3/message.go                    | 15 ++++++++----
 pkg/asyncapi/v3/message_trait.go              |  8 +++++++
 pkg/asyncapi/v3/specification.go              | 24 +++++++++++++++++++
 .../generators/v3/templates/message.tmpl      | 12 +++++-----
 5 files changed, 61 insertions(+), 14 deletions(-)

diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index 720d21e..ea44775 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -12,8 +12,8 @@ type CorrelationID struct {
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 
-	Name        string   `json:"-"`
-	ReferenceTo *Channel `json:"-"`
+	Name        string         `json:"-"`
+	ReferenceTo *CorrelationID `json:"-"`
 }
 
 // generateMetadata generates metadata for the CorrelationID.
@@ -36,7 +36,7 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 
 	// Add pointer to reference if there is one
 	if c.Reference != "" {
-		refTo, err := spec.ReferenceChannel(c.Reference)
+		refTo, err := spec.ReferenceCorrelationID(c.Reference)
 		if err != nil {
 			return err
 		}
@@ -48,5 +48,13 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 
 // Exists checks that the correlation exists (and that the location is set).
 func (c *CorrelationID) Exists() bool {
-	return c != nil && c.Location != ""
+	return c != nil && c.Follow().Location != ""
+}
+
+// Follow returns referenced correlation ID if specified or the actual correlation ID.
+func (c *CorrelationID) Follow() *CorrelationID {
+	if c.ReferenceTo != nil {
+		return c.ReferenceTo.Follow()
+	}
+	return c
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 37b06ca..2488e87 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -106,6 +106,7 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 	}
 
 	// Process correlation ID
+	msg.CorrelationID.generateMetadata(msg.Name, "")
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
 
@@ -164,6 +165,11 @@ func (msg *Message) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set correlation ID dependencies
+	if err := msg.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Process correlation ID again, now that references are resolved
 	msg.createCorrelationIDFieldIfMissing()
 	msg.CorrelationIDRequired = msg.isCorrelationIDRequired()
@@ -294,12 +300,13 @@ func (msg *Message) setTraitsDependencies(spec Specification) error {
 }
 
 func (msg Message) isCorrelationIDRequired() bool {
-	if msg.CorrelationID == nil || msg.CorrelationID.Location == "" {
+	if !msg.CorrelationID.Exists() {
 		return false
 	}
 
-	correlationIDParent := msg.createTreeUntilLocation(msg.CorrelationID.Location)
-	path := strings.Split(msg.CorrelationID.Location, "/")
+	location := msg.CorrelationID.Follow().Location
+	correlationIDParent := msg.createTreeUntilLocation(location)
+	path := strings.Split(location, "/")
 	return correlationIDParent.IsFieldRequired(path[len(path)-1])
 }
 
@@ -308,7 +315,7 @@ func (msg *Message) createCorrelationIDFieldIfMissing() {
 		return
 	}
 
-	_ = msg.createTreeUntilLocation(msg.CorrelationID.Location)
+	_ = msg.createTreeUntilLocation(msg.CorrelationID.Follow().Location)
 }
 
 func (msg *Message) createTreeUntilLocation(location string) (locationParent *Schema) {
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 821a2ef..a366372 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -61,6 +61,9 @@ func (mt *MessageTrait) generateMetadata(parentName, name string, number *int) e
 	// Generate Bindings metadata
 	mt.Bindings.generateMetadata(mt.Name, "")
 
+	// Generate correlation ID metadata
+	mt.CorrelationID.generateMetadata(mt.Name, "")
+
 	// Generate Message Examples metadata
 	for i, e := range mt.Examples {
 		e.generateMetadata(mt.Name, "", &i)
@@ -108,6 +111,11 @@ func (mt *MessageTrait) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set correlation ID dependencies
+	if err := mt.CorrelationID.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Set Message Examples dependencies
 	for _, e := range mt.Examples {
 		if err := e.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 0d5cc17..9163d30 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -242,6 +242,30 @@ func (s Specification) ReferenceChannelBindings(ref string) (*ChannelBindings, e
 	return bindings, nil
 }
 
+// ReferenceCorrelationID returns the CorrelationID struct corresponding to the given reference.
+func (s Specification) ReferenceCorrelationID(ref string) (*CorrelationID, error) {
+	// Get object pointed by reference
+	obj, err := s.reference(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	// Cast to correlation ID
+	correlationID, ok := obj.(*CorrelationID)
+	if !ok {
+		return nil, fmt.Errorf(
+			"%w: cannot cast %q into 'CorrelationID' (type is %q)",
+			ErrInvalidReference, ref, reflect.TypeOf(obj))
+	}
+
+	// Check that correlation ID is not nil
+	if correlationID == nil {
+		return nil, fmt.Errorf("%w: empty target for correlation ID reference %q", ErrInvalidReference, ref)
+	}
+
+	return correlationID, nil
+}
+
 // ReferenceExternalDocumentation returns the ExternalDocumentation struct corresponding to the given reference.
 func (s Specification) ReferenceExternalDocumentation(ref string) (*ExternalDocumentation, error) {
 	// Get object pointed by reference
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index c8bccfc..bf72847 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -43,7 +43,7 @@ func New{{namify .Name}}() {{namify .Name}} {
     {{if $.HaveCorrelationID -}}
     // Set correlation ID
     u := uuid.New().String()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Follow.Location}} = {{if isLocationPointer $.CorrelationIDRequired}}&{{end}}u
     {{- end}}
 
     return msg
@@ -286,10 +286,10 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 // CorrelationID will give the correlation ID of the message, based on AsyncAPI spec
 func (msg {{namify .Name}}) CorrelationID() string {
     {{if not (isLocationPointer $.CorrelationIDRequired) -}}
-        return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+        return msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Follow.Location}}
     {{- else -}}
-    if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} != nil{
-        return *msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}}
+    if msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Follow.Location}} != nil{
+        return *msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Follow.Location}}
     }
 
     return ""
@@ -298,7 +298,7 @@ func (msg {{namify .Name}}) CorrelationID() string {
 
 // SetCorrelationID will set the correlation ID of the message, based on AsyncAPI spec
 func (msg *{{namify .Name}}) SetCorrelationID(id string) {
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Follow.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 
 // SetAsResponseFrom will correlate the message with the one passed in parameter.
@@ -306,7 +306,7 @@ func (msg *{{namify .Name}}) SetCorrelationID(id string) {
 // both specified in AsyncAPI spec.
 func (msg *{{namify .Name}}) SetAsResponseFrom(req MessageWithCorrelationID) {
     id := req.CorrelationID()
-    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
+    msg.{{referenceToStructAttributePath $.Follow.CorrelationID.Follow.Location}} = {{if isLocationPointer $.CorrelationIDRequired -}}&{{end}}id
 }
 {{- end -}}
 
-- 
2.43.0


From 9b85486fc7250c3269347b4d5f40aa455f678d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 27/77] fix: handle replies and reply addresses given by
 reference

---
 pkg/asyncapi/v3/components.go                 |  4 +-
 pkg/asyncapi/v3/operation.go                  | 30 +++++++++---
 pkg/asyncapi/v3/operation_reply.go            |  4 +-
 pkg/asyncapi/v3/operation_reply_address.go    | 24 +++++-----
 pkg/codegen/generators/v3/controller.go       |  2 +-
 .../generators/v3/templates/controller.tmpl   | 46 +++++++++----------
 6 files changed, 64 insertions(+), 46 deletions(-)

diff --git a/pkg/asyncapi/v3/components.go b/pkg/asyncapi/v3/components.go
index 1c8ba41..0935564 100644
--- a/pkg/asyncapi/v3/components.go
+++ b/pkg/asyncapi/v3/components.go
@@ -84,14 +84,14 @@ func (c *Components) setDependencies(spec Specification) error {
 
 	// Set reply operations dependencies
 	for _, reply := range c.Replies {
-		if err := reply.setDependencies(&Operation{}, spec); err != nil {
+		if err := reply.setDependencies(spec); err != nil {
 			return err
 		}
 	}
 
 	// Set reply addresses dependencies
 	for _, repAddr := range c.ReplyAddresses {
-		if err := repAddr.setDependencies(&Operation{}, spec); err != nil {
+		if err := repAddr.setDependencies(spec); err != nil {
 			return err
 		}
 	}
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 8f95f64..67feb4d 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -130,14 +130,16 @@ func (op *Operation) setDependencies(spec Specification) error {
 	}
 
 	// Set reply dependencies if there is one
-	if err := op.Reply.setDependencies(op, spec); err != nil {
+	if err := op.Reply.setDependencies(spec); err != nil {
 		return err
 	}
 
 	// Generate reply
 	op.generateReply()
 
-	return nil
+	// Create the location of the reply address if it is missing
+	_, err := op.IsReplyAddressLocationRequired()
+	return err
 }
 
 func (op *Operation) setReference(spec Specification) error {
@@ -173,15 +175,31 @@ func (op *Operation) generateReply() {
 		return
 	}
 
+	// Return if there is no channel to reply on
+	reply := op.Reply.Follow()
+	if reply.Channel == nil {
+		return
+	}
+
 	// Generate reply
-	ch := op.Reply.Channel.Follow()
 	op.ReplyIs = &Operation{
-		Name:    "ReplyTo" + op.Name,
-		Channel: ch,
-		ReplyOf: op,
+		Name:     "ReplyTo" + op.Name,
+		Channel:  reply.Channel,
+		Messages: reply.Messages,
+		ReplyOf:  op,
 	}
 }
 
+// IsReplyAddressLocationRequired checks if the location of the reply address is
+// required in the operation message.
+func (op *Operation) IsReplyAddressLocationRequired() (bool, error) {
+	if op.Reply == nil || op.Reply.Follow().Address == nil {
+		return false, nil
+	}
+
+	return op.Reply.Follow().Address.Follow().isLocationRequired(op)
+}
+
 // GetMessage will return the operation message.
 func (op Operation) GetMessage() (*Message, error) {
 	if len(op.Messages) > 0 {
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 1bbb975..d509c27 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -34,7 +34,7 @@ func (or *OperationReply) generateMetadata(parentName, name string) error {
 }
 
 // setDependencies sets dependencies between the different elements of the OperationReply.
-func (or *OperationReply) setDependencies(op *Operation, spec Specification) error {
+func (or *OperationReply) setDependencies(spec Specification) error {
 	// Prevent modification if nil
 	if or == nil {
 		return nil
@@ -62,7 +62,7 @@ func (or *OperationReply) setDependencies(op *Operation, spec Specification) err
 	}
 
 	// Set address dependencies
-	if err := or.Address.setDependencies(op, spec); err != nil {
+	if err := or.Address.setDependencies(spec); err != nil {
 		return err
 	}
 
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index 9152f4b..b0f7a57 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -16,9 +16,8 @@ type OperationReplyAddress struct {
 
 	// --- Non AsyncAPI fields -------------------------------------------------
 
-	Name             string                 `json:"-"`
-	ReferenceTo      *OperationReplyAddress `json:"-"`
-	LocationRequired bool                   `json:"-"`
+	Name        string                 `json:"-"`
+	ReferenceTo *OperationReplyAddress `json:"-"`
 }
 
 // generateMetadata generates metadata for the OperationReplyAddress.
@@ -33,7 +32,7 @@ func (ora *OperationReplyAddress) generateMetadata(parentName, name string) {
 }
 
 // setDependencies sets dependencies between the different elements of the OperationReplyAddress.
-func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specification) error {
+func (ora *OperationReplyAddress) setDependencies(spec Specification) error {
 	// Prevent modification if nil
 	if ora == nil {
 		return nil
@@ -48,16 +47,17 @@ func (ora *OperationReplyAddress) setDependencies(op *Operation, spec Specificat
 		ora.ReferenceTo = refTo
 	}
 
-	// Get location to schema
-	locRequired, err := ora.isLocationRequired(op)
-	if err != nil {
-		return err
-	}
-	ora.LocationRequired = locRequired
-
 	return nil
 }
 
+// Follow returns referenced operation reply address if specified or the actual one.
+func (ora *OperationReplyAddress) Follow() *OperationReplyAddress {
+	if ora.ReferenceTo != nil {
+		return ora.ReferenceTo.Follow()
+	}
+	return ora
+}
+
 func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error) {
 	if ora.Location == "" {
 		return false, nil
@@ -68,7 +68,7 @@ func (ora OperationReplyAddress) isLocationRequired(op *Operation) (bool, error)
 		return false, err
 	}
 
-	locationParent := msg.createTreeUntilLocation(ora.Location)
+	locationParent := msg.Follow().createTreeUntilLocation(ora.Location)
 	path := strings.Split(ora.Location, "/")
 	return locationParent.IsFieldRequired(path[len(path)-1]), nil
 }
diff --git a/pkg/codegen/generators/v3/controller.go b/pkg/codegen/generators/v3/controller.go
index f355ecd..7edf849 100644
--- a/pkg/codegen/generators/v3/controller.go
+++ b/pkg/codegen/generators/v3/controller.go
@@ -36,7 +36,7 @@ func NewControllerGenerator(side generators.Side, spec asyncapi.Specification) C
 }
 
 func shouldControllerRespondToReply(side generators.Side, op *asyncapi.Operation) bool {
-	if op.Reply == nil || op.Reply.Channel == nil {
+	if op.ReplyIs == nil {
 		return false
 	}
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index d4ede52..bb58070 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -256,7 +256,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
     return false, nil
 }
 
-{{- if .Reply }}
+{{- if .ReplyIs }}
 // ReplyTo{{ namify $value.Follow.Name }} is a helper function to
 // reply to a {{cutSuffix (opToMsgTypeName $value) "Message"}} message with a {{cutSuffix (opToMsgTypeName $value.ReplyIs) "Message"}} message on {{cutSuffix (opToChannelTypeName $value.ReplyIs) "Channel"}} channel.
 func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx context.Context, recvMsg {{opToMsgTypeName $value}}, fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}})) error {
@@ -271,14 +271,14 @@ func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx co
 
     // Publish reply
     {{- /* Use reply address if needed */}}
-    {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
-            chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+    {{- if and .Reply.Follow.Address (eq .ReplyIs.Channel.Follow.Address "") }}
+        {{- if not (isLocationPointer .IsReplyAddressLocationRequired) }}
+            chanAddr := recvMsg.{{referenceToStructAttributePath .Reply.Follow.Address.Follow.Location}}
         {{- else }}
-            if recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            if recvMsg.{{referenceToStructAttributePath .Reply.Follow.Address.Follow.Location}} == nil {
+                return fmt.Errorf("%w: {{.Reply.Follow.Address.Follow.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            chanAddr := *recvMsg.{{referenceToStructAttributePath .Reply.Follow.Address.Follow.Location}}
         {{- end }}
 
         return c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}ReplyTo{{ namify $value.Follow.Name }}(ctx, chanAddr, replyMsg)
@@ -323,7 +323,7 @@ func (c *{{ $.Prefix }}Controller) UnsubscribeFrom{{ namify $value.Follow.Name }
 
 // Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }} will send a {{ cutSuffix (opToMsgTypeName $value) "Message" }} message on {{ cutSuffix (opToChannelTypeName $value) "Channel" }} channel.
 //
-{{- if .Reply}}
+{{- if .ReplyIs}}
 // NOTE: this won't wait for reply, use the normal version to get the reply or do the catching reply manually.
 {{- end}}
 // NOTE: for now, this only support the first message from AsyncAPI list.
@@ -380,7 +380,7 @@ func (c *{{ $.Prefix }}Controller) Send{{ if eq $.Prefix "User" }}To{{else}}As{{
 }
 
 
-{{if .Reply -}}
+{{if .ReplyIs -}}
 
 // Request{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }} will send a {{ cutSuffix (opToMsgTypeName $value) "Message" }} message on {{ cutSuffix (opToChannelTypeName $value) "Channel" }} channel
 // and wait for a {{ cutSuffix (opToMsgTypeName $value.ReplyIs) "Message" }} message from {{ cutSuffix (opToChannelTypeName $value.ReplyIs) "Channel" }} channel.
@@ -397,19 +397,19 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     params {{namifyWithoutParam $value.Channel.Follow.Name}}Parameters,
     {{- end}}
     msg {{opToMsgTypeName $value}},
-) ({{channelToMessageTypeName .Reply.Channel}}, error) {
+) ({{opToMsgTypeName .ReplyIs}}, error) {
     // Get receiving channel address
-    {{- if and .Reply.Address (eq .Reply.Channel.Address "") }}
-        {{- if not (isLocationPointer .Reply.Address.LocationRequired) }}
-            addr := msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+    {{- if and .Reply.Follow.Address (eq .ReplyIs.Channel.Follow.Address "") }}
+        {{- if not (isLocationPointer .IsReplyAddressLocationRequired) }}
+            addr := msg.{{referenceToStructAttributePath .Reply.Follow.Address.Follow.Location}}
         {{- else }}
-            if msg.{{referenceToStructAttributePath .Reply.Address.Location}} == nil {
-                return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("%w: {{.Reply.Address.Location}} is empty", extensions.ErrChannelAddressEmpty)
+            if msg.{{referenceToStructAttributePath .Reply.Follow.Address.Follow.Location}} == nil {
+                return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("%w: {{.Reply.Follow.Address.Follow.Location}} is empty", extensions.ErrChannelAddressEmpty)
             }
-            addr := *msg.{{referenceToStructAttributePath .Reply.Address.Location}}
+            addr := *msg.{{referenceToStructAttributePath .Reply.Follow.Address.Follow.Location}}
         {{- end }}
     {{- else }}
-        addr := {{ generateChannelAddr .Reply.Channel }}
+        addr := {{ generateChannelAddrFromOp .ReplyIs }}
     {{- end }}
 
     // Set context
@@ -420,7 +420,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     sub, err := c.broker.Subscribe(ctx, addr)
     if err != nil {
         c.logger.Error(ctx, err.Error())
-        return {{channelToMessageTypeName .Reply.Channel}}{}, err
+        return {{opToMsgTypeName .ReplyIs}}{}, err
     }
     c.logger.Info(ctx, "Subscribed to channel")
 
@@ -443,7 +443,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Send the message 
     if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}} msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
-        return {{channelToMessageTypeName .Reply.Channel}}{}, fmt.Errorf("error happened when sending message: %w", err)
+        return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
 
     // Wait for corresponding response
@@ -452,7 +452,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
         msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
-            return {{channelToMessageTypeName .Reply.Channel}}{}, err
+            return {{opToMsgTypeName .ReplyIs}}{}, err
         }
 
         // Continue if the message hasn't been received
@@ -471,7 +471,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     {{- if $value.GetMessage.HaveCorrelationID}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
-) (*{{channelToMessageTypeName .Reply.Channel}}, error) {
+) (*{{opToMsgTypeName .ReplyIs}}, error) {
     // Create a context for the received response
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
@@ -493,7 +493,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
 
         {{if $value.GetMessage.HaveCorrelationID -}}
         // Get new message
-        rmsg, err := brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err := brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             c.logger.Error(msgCtx, err.Error())
         }
@@ -525,7 +525,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{channelToMessageTypeName .Reply.Channel}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From e0454b8dfc3385ef8bdc22d374d4c06c59af3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 28/77] fix: generate operations given by reference

---
 pkg/asyncapi/v3/operation.go        | 10 ++++++++++
 pkg/asyncapi/v3/specification.go    |  2 ++
 pkg/codegen/generators/v3/common.go |  3 +++
 3 files changed, 15 insertions(+)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 67feb4d..6bcb2b3 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -1,5 +1,11 @@
 package asyncapiv3
 
+import (
+	"fmt"
+
+	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
+)
+
 // OperationAction represents an OperationAction.
 type OperationAction string
 
@@ -206,6 +212,10 @@ func (op Operation) GetMessage() (*Message, error) {
 		return op.Messages[0], nil // TODO: change
 	}
 
+	if op.Channel == nil {
+		return nil, fmt.Errorf("%w: operation %q has no channel", extensions.ErrAsyncAPI, op.Name)
+	}
+
 	return op.Channel.GetMessage()
 }
 
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 9163d30..ec8802a 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -180,6 +180,8 @@ func (s *Specification) setDependencies() error {
 // of 'reception' operations inside the Specification.
 func (s Specification) GetOperationCountByAction() (sendCount, receiveCount uint) {
 	for _, op := range s.Operations {
+		op = op.Follow()
+
 		// Check that the publish channel is present
 		if op.Action.IsSend() {
 			sendCount++
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index 2e1fa5e..a330414 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -31,6 +31,9 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
 	for name, op := range spec.Operations {
+		// Be sure this is the final operation, not a proxy
+		op = op.Follow()
+
 		// Add channel to receive channels based on operation action and side
 		if isControllerReceiveOperation(side, op) {
 			ao.Receive[name] = op
-- 
2.43.0


From bb54b304ab1638b98dbb24d912b998989151f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 29/77] fix: report malformed, dangling and cyclic references
 as errors

---
 pkg/asyncapi/v2/message.go       |   7 +-
 pkg/asyncapi/v2/schema.go        |   2 +-
 pkg/asyncapi/v2/specification.go |  82 ++++++++---
 pkg/asyncapi/v3/message.go       |   7 +-
 pkg/asyncapi/v3/schema.go        |   2 +-
 pkg/asyncapi/v3/specification.go | 243 +++++++++++++++++++++++--------
 6 files changed, 253 insertions(+), 90 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 2a6a88e..96489aa 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -311,14 +311,15 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if len(ref) == 0 || msg == nil {
 		return msg
 	}
 
 	var next *Schema
-	if ref[0] == "payload" {
+	switch ref[0] {
+	case MessageFieldIsPayload.String():
 		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
+	case MessageFieldIsHeader.String(), "headers":
 		next = msg.Headers
 	}
 
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 104c530..6297714 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -306,7 +306,7 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if len(ref) == 0 || s == nil {
 		return s
 	}
 
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 4cad206..331b042 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -224,33 +224,75 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 	return s2, ref, nil
 }
 
+// reference returns the object designated by a reference, checking that following
+// the references from this object ends.
 func (s Specification) reference(ref string) (any, error) {
-	// Separate file from path
-	usedSpec, ref, err := s.getDependencyBasedOnRef(ref)
+	target, spec, err := s.lookup(ref)
 	if err != nil {
 		return nil, err
 	}
 
-	// Separate each part of the reference
-	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
-
-	switch refPath[0] {
-	case "components":
-		switch refPath[1] {
-		case "messages":
-			msg := usedSpec.Components.Messages[refPath[2]]
-			return msg.referenceFrom(refPath[3:]), nil
-		case "schemas":
-			schema := usedSpec.Components.Schemas[refPath[2]]
-			return schema.referenceFrom(refPath[3:]), nil
-		case "parameters":
-			return usedSpec.Components.Parameters[refPath[2]], nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
+	seen := make(map[any]bool)
+	for obj := target; referenceOf(obj) != ""; {
+		if seen[obj] {
+			return nil, fmt.Errorf("%w: reference %q is cyclic", ErrInvalidReference, ref)
+		}
+		seen[obj] = true
+
+		obj, spec, err = spec.lookup(referenceOf(obj))
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	return target, nil
+}
+
+// referenceOf returns the reference held by an object that can be followed.
+func referenceOf(obj any) string {
+	switch o := obj.(type) {
+	case *Message:
+		if o != nil {
+			return o.Reference
+		}
+	case *Parameter:
+		if o != nil {
+			return o.Reference
+		}
+	case *Schema:
+		if o != nil {
+			return o.Reference
 		}
+	}
+
+	return ""
+}
+
+// lookup returns the object designated by a reference and the specification
+// where it is.
+func (s Specification) lookup(ref string) (any, *Specification, error) {
+	// Separate file from path
+	usedSpec, path, err := s.getDependencyBasedOnRef(ref)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	// Separate each part of the reference
+	refPath := strings.Split(strings.TrimPrefix(path, "/"), "/")
+	if refPath[0] != "components" || len(refPath) < 3 { //nolint:mnd
+		return nil, nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+	}
+
+	kind, name, elemPath := refPath[1], refPath[2], refPath[3:]
+	switch {
+	case kind == "messages":
+		return usedSpec.Components.Messages[name].referenceFrom(elemPath), usedSpec, nil
+	case kind == "schemas":
+		return usedSpec.Components.Schemas[name].referenceFrom(elemPath), usedSpec, nil
+	case kind == "parameters" && len(elemPath) == 0:
+		return usedSpec.Components.Parameters[name], usedSpec, nil
 	default:
-		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[0], ref)
+		return nil, nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, kind, ref)
 	}
 }
 
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 2488e87..3f30554 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -403,14 +403,15 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 }
 
 func (msg *Message) referenceFrom(ref []string) any {
-	if len(ref) == 0 {
+	if len(ref) == 0 || msg == nil {
 		return msg
 	}
 
 	var next *Schema
-	if ref[0] == "payload" {
+	switch ref[0] {
+	case MessageFieldIsPayload.String():
 		next = msg.Payload
-	} else if ref[0] == MessageFieldIsHeader.String() {
+	case MessageFieldIsHeader.String(), "headers":
 		next = msg.Headers
 	}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index e44558f..a0d6c21 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -309,7 +309,7 @@ func (s Schema) IsFieldRequired(field string) bool {
 }
 
 func (s *Schema) referenceFrom(ref []string) *Schema {
-	if len(ref) == 0 {
+	if len(ref) == 0 || s == nil {
 		return s
 	}
 
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index ec8802a..048a52e 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -703,78 +703,197 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 	return s2, ref, nil
 }
 
-//nolint:funlen,cyclop // Not necessary to reduce statements and cyclop
+// reference returns the object designated by a reference, checking that following
+// the references from this object ends.
 func (s Specification) reference(ref string) (any, error) {
-	// Separate file from path
-	usedSpec, ref, err := s.getDependencyBasedOnRef(ref)
+	target, spec, err := s.lookup(ref)
 	if err != nil {
 		return nil, err
 	}
 
-	// Separate each part of the reference
-	ref = strings.TrimPrefix(ref, "/")
-	refPath := strings.Split(ref, "/")
-
-	switch refPath[0] {
-	case "components":
-		switch refPath[1] {
-		case "schemas":
-			schema := usedSpec.Components.Schemas[refPath[2]]
-			return schema.referenceFrom(refPath[3:]), nil
-		case "servers":
-			return usedSpec.Components.Servers[refPath[2]], nil
-		case "channels":
-			return usedSpec.Components.Channels[refPath[2]], nil
-		case "operations":
-			return usedSpec.Components.Operations[refPath[2]], nil
-		case "messages":
-			msg := usedSpec.Components.Messages[refPath[2]]
-			return msg.referenceFrom(refPath[3:]), nil
-		case "securitySchemes":
-			return usedSpec.Components.SecuritySchemes[refPath[2]], nil
-		case "serverVariables":
-			return usedSpec.Components.ServerVariables[refPath[2]], nil
-		case "parameters":
-			return usedSpec.Components.Parameters[refPath[2]], nil
-		case "correlationIds":
-			return usedSpec.Components.CorrelationIDs[refPath[2]], nil
-		case "replies":
-			return usedSpec.Components.Replies[refPath[2]], nil
-		case "replyAddresses":
-			return usedSpec.Components.ReplyAddresses[refPath[2]], nil
-		case "externalDocs":
-			return usedSpec.Components.ExternalDocs[refPath[2]], nil
-		case "tags":
-			return usedSpec.Components.Tags[refPath[2]], nil
-		case "operationTraits":
-			return usedSpec.Components.OperationTraits[refPath[2]], nil
-		case "messageTraits":
-			return usedSpec.Components.MessageTraits[refPath[2]], nil
-		case "serverBindings":
-			return usedSpec.Components.ServerBindings[refPath[2]], nil
-		case "channelBindings":
-			return usedSpec.Components.ChannelBindings[refPath[2]], nil
-		case "operationBindings":
-			return usedSpec.Components.OperationBindings[refPath[2]], nil
-		case "messageBindings":
-			return usedSpec.Components.MessageBindings[refPath[2]], nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[1], ref)
+	seen := make(map[any]bool)
+	for obj := target; referenceOf(obj) != ""; {
+		if seen[obj] {
+			return nil, fmt.Errorf("%w: reference %q is cyclic", ErrInvalidReference, ref)
 		}
-	case "channels":
-		if len(refPath) < 3 {
-			return usedSpec.Channels[refPath[1]], nil
+		seen[obj] = true
+
+		obj, spec, err = spec.lookup(referenceOf(obj))
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	return target, nil
+}
+
+// referenceOf returns the reference held by an object that can be followed.
+//
+//nolint:cyclop
+func referenceOf(obj any) string {
+	switch o := obj.(type) {
+	case *Channel:
+		if o != nil {
+			return o.Reference
+		}
+	case *CorrelationID:
+		if o != nil {
+			return o.Reference
+		}
+	case *Message:
+		if o != nil {
+			return o.Reference
+		}
+	case *MessageTrait:
+		if o != nil {
+			return o.Reference
+		}
+	case *Operation:
+		if o != nil {
+			return o.Reference
 		}
-		switch refPath[2] {
-		case "messages":
-			msg := usedSpec.Channels[refPath[1]].Messages[refPath[3]]
-			return msg.referenceFrom(refPath[4:]), nil
-		default:
-			return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[2], ref)
+	case *OperationReply:
+		if o != nil {
+			return o.Reference
 		}
+	case *OperationReplyAddress:
+		if o != nil {
+			return o.Reference
+		}
+	case *OperationTrait:
+		if o != nil {
+			return o.Reference
+		}
+	case *Schema:
+		if o != nil {
+			return o.Reference
+		}
+	}
+
+	return ""
+}
+
+// lookup returns the object designated by a reference and the specification
+// where it is.
+func (s Specification) lookup(ref string) (any, *Specification, error) {
+	// Separate file from path
+	usedSpec, path, err := s.getDependencyBasedOnRef(ref)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	// Separate each part of the reference
+	refPath := strings.Split(strings.TrimPrefix(path, "/"), "/")
+
+	var obj any
+	switch {
+	case refPath[0] == "components" && len(refPath) > 2: //nolint:mnd
+		obj, err = usedSpec.lookupComponents(ref, refPath[1], refPath[2], refPath[3:])
+	case refPath[0] == "channels" && len(refPath) > 1:
+		obj, err = usedSpec.lookupChannels(ref, refPath[1], refPath[2:])
 	default:
-		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, refPath[0], ref)
+		err = fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
 	}
+
+	return obj, usedSpec, err
+}
+
+//nolint:funlen,cyclop
+func (s Specification) lookupComponents(ref, kind, name string, path []string) (any, error) {
+	// Get elements that can be referenced from inside
+	switch kind {
+	case "schemas":
+		return s.Components.Schemas[name].referenceFrom(path), nil
+	case "messages":
+		return s.Components.Messages[name].referenceFrom(path), nil
+	}
+
+	// Check that the reference doesn't go inside other elements
+	if len(path) > 0 {
+		return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+	}
+
+	switch kind {
+	case "servers":
+		return s.Components.Servers[name], nil
+	case "channels":
+		return s.Components.Channels[name], nil
+	case "operations":
+		return s.Components.Operations[name], nil
+	case "securitySchemes":
+		return s.Components.SecuritySchemes[name], nil
+	case "serverVariables":
+		return s.Components.ServerVariables[name], nil
+	case "parameters":
+		return s.Components.Parameters[name], nil
+	case "correlationIds":
+		return s.Components.CorrelationIDs[name], nil
+	case "replies":
+		return s.Components.Replies[name], nil
+	case "replyAddresses":
+		return s.Components.ReplyAddresses[name], nil
+	case "externalDocs":
+		return s.Components.ExternalDocs[name], nil
+	case "tags":
+		return s.Components.Tags[name], nil
+	case "operationTraits":
+		return s.Components.OperationTraits[name], nil
+	case "messageTraits":
+		return s.Components.MessageTraits[name], nil
+	case "serverBindings":
+		return s.Components.ServerBindings[name], nil
+	case "channelBindings":
+		return s.Components.ChannelBindings[name], nil
+	case "operationBindings":
+		return s.Components.OperationBindings[name], nil
+	case "messageBindings":
+		return s.Components.MessageBindings[name], nil
+	default:
+		return nil, fmt.Errorf("%w: %q from reference %q is not supported", ErrInvalidReference, kind, ref)
+	}
+}
+
+func (s Specification) lookupChannels(ref, name string, path []string) (any, error) {
+	ch := s.Channels[name]
+	if len(path) == 0 {
+		return ch, nil
+	}
+
+	ch, err := s.finalChannel(ref, ch)
+	if err != nil {
+		return nil, err
+	}
+
+	if path[0] != "messages" || len(path) == 1 {
+		return nil, fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
+	}
+
+	return ch.Messages[path[1]].referenceFrom(path[2:]), nil
+}
+
+// finalChannel follows the references of a channel, until there is no more.
+func (s Specification) finalChannel(ref string, ch *Channel) (*Channel, error) {
+	seen := make(map[*Channel]bool)
+	for spec := &s; ch != nil && ch.Reference != ""; {
+		// Channels are not found in messages, and there should be no cycle
+		if seen[ch] || strings.Contains(ch.Reference, "/messages/") {
+			return nil, fmt.Errorf("%w: channel reference %q is invalid", ErrInvalidReference, ch.Reference)
+		}
+		seen[ch] = true
+
+		obj, next, err := spec.lookup(ch.Reference)
+		if err != nil {
+			return nil, err
+		}
+		ch, _ = obj.(*Channel)
+		spec = next
+	}
+
+	if ch == nil {
+		return nil, fmt.Errorf("%w: empty target for reference %q", ErrInvalidReference, ref)
+	}
+
+	return ch, nil
 }
 
 // MajorVersion returns the asyncapi major version of this document.
-- 
2.43.0


From 8311199849c3209a9d7043490453ed412910f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 30/77] fix: find the name of a v2 message reference wherever
 it points

---
 pkg/asyncapi/v2/operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index be5a925..551e934 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -27,7 +27,7 @@ func (op *Operation) generateMetadata(name string) error {
 	// Get message name
 	var msgName string
 	if op.Message.Reference != "" {
-		msgName = strings.Split(op.Message.Reference, "/")[3]
+		msgName = op.Message.Reference[strings.LastIndex(op.Message.Reference, "/")+1:]
 	} else {
 		msgName = op.Name
 	}
-- 
2.43.0


From 34f350a554f89e0a237b6c03f9c53faa55864de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 31/77] fix: follow references to their end

---
 pkg/asyncapi/v2/schema.go          | 2 +-
 pkg/asyncapi/v3/channel.go         | 2 +-
 pkg/asyncapi/v3/message.go         | 2 +-
 pkg/asyncapi/v3/message_trait.go   | 2 +-
 pkg/asyncapi/v3/operation.go       | 2 +-
 pkg/asyncapi/v3/operation_reply.go | 2 +-
 pkg/asyncapi/v3/operation_trait.go | 2 +-
 pkg/asyncapi/v3/schema.go          | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 6297714..7e5792c 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -468,7 +468,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index a05dd5e..c3ad562 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -148,7 +148,7 @@ func (ch *Channel) setReference(spec Specification) error {
 // Follow returns referenced channel if specified or the actual channel.
 func (ch *Channel) Follow() *Channel {
 	if ch.ReferenceTo != nil {
-		return ch.ReferenceTo
+		return ch.ReferenceTo.Follow()
 	}
 	return ch
 }
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 3f30554..6383077 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -510,7 +510,7 @@ func (msg *Message) mergeWithMessageHeaders(msg2 Message, spec Specification) er
 // Follow returns referenced message if specified or the actual message.
 func (msg *Message) Follow() *Message {
 	if msg.ReferenceTo != nil {
-		return msg.ReferenceTo
+		return msg.ReferenceTo.Follow()
 	}
 	return msg
 }
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index a366372..00edb1e 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -145,7 +145,7 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (mt *MessageTrait) Follow() *MessageTrait {
 	if mt.ReferenceTo != nil {
-		return mt.ReferenceTo
+		return mt.ReferenceTo.Follow()
 	}
 	return mt
 }
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 6bcb2b3..292e058 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -265,7 +265,7 @@ func (op *Operation) ApplyTrait(ot *OperationTrait, spec Specification) {
 // Follow returns referenced operation if specified or the actual operation.
 func (op *Operation) Follow() *Operation {
 	if op.ReferenceTo != nil {
-		return op.ReferenceTo
+		return op.ReferenceTo.Follow()
 	}
 	return op
 }
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index d509c27..556ebcf 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -72,7 +72,7 @@ func (or *OperationReply) setDependencies(spec Specification) error {
 // Follow returns referenced operation if specified or the actual operation.
 func (or *OperationReply) Follow() *OperationReply {
 	if or.ReferenceTo != nil {
-		return or.ReferenceTo
+		return or.ReferenceTo.Follow()
 	}
 	return or
 }
diff --git a/pkg/asyncapi/v3/operation_trait.go b/pkg/asyncapi/v3/operation_trait.go
index dd409ca..bde744e 100644
--- a/pkg/asyncapi/v3/operation_trait.go
+++ b/pkg/asyncapi/v3/operation_trait.go
@@ -90,7 +90,7 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 // Follow returns referenced MessageTrait if specified or the actual MessageTrait.
 func (ot *OperationTrait) Follow() *OperationTrait {
 	if ot.ReferenceTo != nil {
-		return ot.ReferenceTo
+		return ot.ReferenceTo.Follow()
 	}
 	return ot
 }
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index a0d6c21..cbf766b 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -471,7 +471,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-		return s.ReferenceTo
+		return s.ReferenceTo.Follow()
 	}
 	return s
 }
-- 
2.43.0


From 5c99de14b2e4bfc5359b3d4831838d828b3f2815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 32/77] fix: follow references to channels and schemas to their
 end in templates

---
 pkg/asyncapi/v2/specification.go              | 25 +++++++++++++++----
 pkg/asyncapi/v3/specification.go              | 25 +++++++++++++++----
 .../generators/v2/templates/message.tmpl      | 22 ++++------------
 .../generators/v3/templates/message.tmpl      | 20 +++------------
 .../generators/v3/templates/types.tmpl        | 10 ++++----
 5 files changed, 54 insertions(+), 48 deletions(-)

diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 331b042..1aca919 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -175,11 +175,13 @@ func (s Specification) ReferenceMessage(ref string) (*Message, error) {
 
 // ReferenceSchema returns the Any struct corresponding to the given reference.
 func (s Specification) ReferenceSchema(ref string) (*Schema, error) {
-	// Get object pointed by reference
-	obj, err := s.reference(ref)
+	// Get objects pointed by reference, down to the one that is not a reference,
+	// as the intermediate ones may not have been processed yet
+	objs, err := s.references(ref)
 	if err != nil {
 		return nil, err
 	}
+	obj := objs[len(objs)-1]
 
 	// Cast to schema
 	schema, ok := obj.(*Schema)
@@ -227,13 +229,25 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 // reference returns the object designated by a reference, checking that following
 // the references from this object ends.
 func (s Specification) reference(ref string) (any, error) {
-	target, spec, err := s.lookup(ref)
+	objs, err := s.references(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	return objs[0], nil
+}
+
+// references returns the objects designated by a reference, from the first one
+// down to the one that is not a reference.
+func (s Specification) references(ref string) ([]any, error) {
+	obj, spec, err := s.lookup(ref)
 	if err != nil {
 		return nil, err
 	}
 
+	objs := []any{obj}
 	seen := make(map[any]bool)
-	for obj := target; referenceOf(obj) != ""; {
+	for referenceOf(obj) != "" {
 		if seen[obj] {
 			return nil, fmt.Errorf("%w: reference %q is cyclic", ErrInvalidReference, ref)
 		}
@@ -243,9 +257,10 @@ func (s Specification) reference(ref string) (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		objs = append(objs, obj)
 	}
 
-	return target, nil
+	return objs, nil
 }
 
 // referenceOf returns the reference held by an object that can be followed.
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 048a52e..e9b3532 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -558,11 +558,13 @@ func (s Specification) ReferenceSecurity(ref string) (*SecurityScheme, error) {
 
 // ReferenceSchema returns the Schema struct corresponding to the given reference.
 func (s Specification) ReferenceSchema(ref string) (*Schema, error) {
-	// Get object pointed by reference
-	obj, err := s.reference(ref)
+	// Get objects pointed by reference, down to the one that is not a reference,
+	// as the intermediate ones may not have been processed yet
+	objs, err := s.references(ref)
 	if err != nil {
 		return nil, err
 	}
+	obj := objs[len(objs)-1]
 
 	// Cast to schema
 	schema, ok := obj.(*Schema)
@@ -706,13 +708,25 @@ func (s Specification) getDependencyBasedOnRef(ref string) (*Specification, stri
 // reference returns the object designated by a reference, checking that following
 // the references from this object ends.
 func (s Specification) reference(ref string) (any, error) {
-	target, spec, err := s.lookup(ref)
+	objs, err := s.references(ref)
+	if err != nil {
+		return nil, err
+	}
+
+	return objs[0], nil
+}
+
+// references returns the objects designated by a reference, from the first one
+// down to the one that is not a reference.
+func (s Specification) references(ref string) ([]any, error) {
+	obj, spec, err := s.lookup(ref)
 	if err != nil {
 		return nil, err
 	}
 
+	objs := []any{obj}
 	seen := make(map[any]bool)
-	for obj := target; referenceOf(obj) != ""; {
+	for referenceOf(obj) != "" {
 		if seen[obj] {
 			return nil, fmt.Errorf("%w: reference %q is cyclic", ErrInvalidReference, ref)
 		}
@@ -722,9 +736,10 @@ func (s Specification) reference(ref string) (any, error) {
 		if err != nil {
 			return nil, err
 		}
+		objs = append(objs, obj)
 	}
 
-	return target, nil
+	return objs, nil
 }
 
 // referenceOf returns the reference held by an object that can be followed.
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 91a5be9..461c66a 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -45,10 +45,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     var msg {{namify .Name}}
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
@@ -101,7 +98,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     {{- if or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number")}}
         {{- /* If that's a reference, then there will be a conversion to struct to add */}}
         {{- if .Payload.Reference}}
-            msg.Payload = {{ namify .Payload.ReferenceTo.Name }}(payload)
+            msg.Payload = {{ namify .Payload.Follow.Name }}(payload)
         {{- else}}
             msg.Payload = payload // No need for type conversion to reference
         {{- end}}
@@ -113,10 +110,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         switch {
 
             {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
+            {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
@@ -161,10 +155,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     // TODO: implement checks on message
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
     {{- if not (or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number"))}}
@@ -205,10 +196,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{/* Handle headers, if defined */}}
     {{ if .Headers -}}
         {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties -}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index bf72847..4c3951b 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -54,10 +54,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
     var msg {{namify .Name}}
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{- /* Handle payload based on type */}}
     {{- if eq $payload.Type "string"}}
@@ -122,10 +119,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
         switch {
 
             {{- /* Get headers by reference, or not*/}}
-            {{- $headerProperties := .Headers.Properties}}
-            {{- if .Headers.Reference }}
-                {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-            {{- end}}
+            {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
             {{- $headers := .Headers -}}
@@ -170,10 +164,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     // TODO: implement checks on message
 
     {{/* Get payload by reference, or not*/}}
-    {{- $payload := .Payload}}
-    {{- if .Payload.Reference }}
-    {{- $payload = .Payload.ReferenceTo }}
-    {{- end}}
+    {{- $payload := .Payload.Follow}}
 
     {{/* Handle payload based on type */}}
     {{- if not (or (eq $payload.Type "string") (eq $payload.Type "integer") (eq $payload.Type "number"))}}
@@ -215,10 +206,7 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
     {{ if .Headers -}}
 
         {{- /* Get headers by reference, or not*/}}
-        {{- $headerProperties := .Headers.Properties}}
-        {{if .Headers.Reference }}
-            {{- $headerProperties = .Headers.ReferenceTo.Properties}}
-        {{- end -}}
+        {{- $headerProperties := .Headers.Follow.Properties -}}
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index d247648..6904e11 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -58,17 +58,17 @@ func (e *Error) Error() string {
 
 {{range $key, $value := .Channels -}}
 
-{{- if $value.Parameters -}}
-// {{ namifyWithoutParam .Name }}Parameters represents {{ namify .Name }} channel parameters
-type {{ namifyWithoutParam .Name }}Parameters struct {
-{{- range $key, $value := .Parameters}}
+{{- if $value.Follow.Parameters -}}
+// {{ namifyWithoutParam .Follow.Name }}Parameters represents {{ namify .Follow.Name }} channel parameters
+type {{ namifyWithoutParam .Follow.Name }}Parameters struct {
+{{- range $key, $value := .Follow.Parameters}}
     // {{ namify $key }} is a channel parameter {{- if $value.Description}}: {{multiLineComment $value.Description}}{{else}}.{{- end}}
     {{ namify $key }} string
 {{- end}}
 }
 {{end}}
 
-{{- range $key, $value := $value.Messages}}
+{{- range $key, $value := $value.Follow.Messages}}
 {{template "message" $value}}
 {{end -}}
 
-- 
2.43.0


From 675c7d347d6dc240471f13176e7b472412a747da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 33/77] fix: import the custom types of messages of channels
 and additional properties

---
 pkg/asyncapi/v2/extensions.go | 42 +++++++++++++++++++++++++++++------
 pkg/asyncapi/v3/extensions.go | 38 +++++++++++++++++++++++++------
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 8f5e360..c1785ec 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -54,6 +54,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process AdditionalProperties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -70,6 +77,23 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in the payload and headers of this message.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -84,15 +108,19 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
 		}
+	}
+
+	for _, ch := range s.Channels {
+		for _, op := range []*Operation{ch.Publish, ch.Subscribe} {
+			if op == nil {
+				continue
+			}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+			if err := op.Message.goTypeImports(importsSet); err != nil {
+				return nil, fmt.Errorf("/channels messages %w", err)
 			}
 		}
 	}
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index b76650c..ec2ae77 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -54,6 +54,13 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 		}
 	}
 
+	// Process AdditionalProperties
+	if s.AdditionalProperties != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+			return err
+		}
+	}
+
 	if s.ExtGoTypeImport != nil {
 		name, exists := imports[s.ExtGoTypeImport.Path]
 		if exists && name != s.ExtGoTypeImport.Name {
@@ -70,6 +77,23 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 	return nil
 }
 
+// goTypeImports collects custom imports in the payload and headers of this message.
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	if msg.Payload != nil {
+		if err := msg.Payload.goTypeImports(imports); err != nil {
+			return fmt.Errorf("payload custom import error: %w", err)
+		}
+	}
+
+	if msg.Headers != nil {
+		if err := msg.Headers.goTypeImports(imports); err != nil {
+			return fmt.Errorf("headers custom import error: %w", err)
+		}
+	}
+
+	return nil
+}
+
 // CustomImports collects all custom import paths set by x-go-type-imports
 // in all Schema Objects in the Specification.
 // Returns import strings like `alias "abc.xyz/repo/package"` for code generation.
@@ -84,15 +108,15 @@ func (s Specification) CustomImports() ([]string, error) {
 	}
 
 	for _, v := range s.Components.Messages {
-		if v.Payload != nil {
-			if err := v.Payload.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages payload custom import error: %w", err)
-			}
+		if err := v.goTypeImports(importsSet); err != nil {
+			return nil, fmt.Errorf("/components/messages %w", err)
 		}
+	}
 
-		if v.Headers != nil {
-			if err := v.Headers.goTypeImports(importsSet); err != nil {
-				return nil, fmt.Errorf("/components/messages headers custom import error: %w", err)
+	for _, ch := range s.Channels {
+		for _, v := range ch.Follow().Messages {
+			if err := v.goTypeImports(importsSet); err != nil {
+				return nil, fmt.Errorf("/channels messages %w", err)
 			}
 		}
 	}
-- 
2.43.0


From 9f924f0f625ec229a69324a5f249bf7aaf3cfbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 34/77] fix: correlate replies only when request and reply have
 a correlation ID

---
 pkg/asyncapi/v3/operation.go                  | 20 +++++++++++++++++++
 .../generators/v3/templates/controller.tmpl   | 17 +++++++++-------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 292e058..6e944a1 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -219,6 +219,26 @@ func (op Operation) GetMessage() (*Message, error) {
 	return op.Channel.GetMessage()
 }
 
+// HaveReplyCorrelationID checks that the replies to the operation can be
+// correlated to its messages, i.e. that both of them have a correlation ID.
+func (op Operation) HaveReplyCorrelationID() (bool, error) {
+	if op.ReplyIs == nil {
+		return false, nil
+	}
+
+	msg, err := op.GetMessage()
+	if err != nil {
+		return false, err
+	}
+
+	reply, err := op.ReplyIs.GetMessage()
+	if err != nil {
+		return false, err
+	}
+
+	return msg.HaveCorrelationID() && reply.HaveCorrelationID(), nil
+}
+
 // ApplyTrait applies a trait to the operation.
 func (op *Operation) ApplyTrait(ot *OperationTrait, spec Specification) {
 	// Check operation is not nil
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index bb58070..8fc7225 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -262,7 +262,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
 func (c *{{ $.Prefix }}Controller) ReplyTo{{ namify $value.Follow.Name }}(ctx context.Context, recvMsg {{opToMsgTypeName $value}}, fn func(replyMsg *{{opToMsgTypeName $value.ReplyIs}})) error {
     // Create reply message
     replyMsg := New{{opToMsgTypeName $value.ReplyIs }}()
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if $value.HaveReplyCorrelationID -}}
 	replyMsg.SetAsResponseFrom(&recvMsg)
     {{- end}}
 
@@ -396,6 +396,9 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     {{- if .Channel.Follow.Parameters}}
     params {{namifyWithoutParam $value.Channel.Follow.Name}}Parameters,
     {{- end}}
+    {{- if eq .Channel.Follow.Address "" }}
+    chanAddr string,
+    {{- end}}
     msg {{opToMsgTypeName $value}},
 ) ({{opToMsgTypeName .ReplyIs}}, error) {
     // Get receiving channel address
@@ -441,7 +444,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     {{- end}}
 
     // Send the message 
-    if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}} msg); err != nil {
+    if err := c.Send{{ if eq $.Prefix "User" }}To{{else}}As{{end}}{{ namify $value.Follow.Name }}(ctx, {{- if .Channel.Follow.Parameters}}params,{{- end}}{{- if eq .Channel.Follow.Address "" }}chanAddr,{{- end}} msg); err != nil {
         c.logger.Error(ctx, "error happened when sending message", extensions.LogInfo{Key: "error", Value: err.Error()})
         return {{opToMsgTypeName .ReplyIs}}{}, fmt.Errorf("error happened when sending message: %w", err)
     }
@@ -449,7 +452,7 @@ func (c *{{ $.Prefix }}Controller) Request{{ if eq $.Prefix "User" }}To{{else}}A
     // Wait for corresponding response
     for {
         // Listen to next message
-        msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.GetMessage.HaveCorrelationID}}, msg{{end}})
+        msg, err := c.waitFor{{ namify $value.Follow.Name }}NextResponse(ctx, addr, sub{{if $value.HaveReplyCorrelationID}}, msg{{end}})
         if err != nil {
             c.logger.Error(ctx, err.Error())
             return {{opToMsgTypeName .ReplyIs}}{}, err
@@ -468,7 +471,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     ctx context.Context,
     addr string,
     sub extensions.BrokerChannelSubscription,
-    {{- if $value.GetMessage.HaveCorrelationID}}
+    {{- if $value.HaveReplyCorrelationID}}
     msg {{opToMsgTypeName $value}},
     {{- end}}
 ) (*{{opToMsgTypeName .ReplyIs}}, error) {
@@ -476,7 +479,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
     msgCtx, cancel := context.WithCancel(context.Background())
     msgCtx = add{{ $.Prefix }}ContextValues(msgCtx, addr)
     msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsDirection, "wait-for")      
-    {{if $value.GetMessage.HaveCorrelationID -}}
+    {{if $value.HaveReplyCorrelationID -}}
         msgCtx = context.WithValue(msgCtx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
     {{end -}}
     defer cancel()
@@ -491,7 +494,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
             return nil, extensions.ErrSubscriptionCanceled
         }
 
-        {{if $value.GetMessage.HaveCorrelationID -}}
+        {{if $value.HaveReplyCorrelationID -}}
         // Get new message
         rmsg, err := brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
@@ -525,7 +528,7 @@ func (c *{{ $.Prefix }}Controller) waitFor{{ namify $value.Follow.Name }}NextRes
         //
         // NOTE: it is transformed from the broker again, as it could have
         // been modified by middlewares
-        rmsg, err {{ if not $value.GetMessage.HaveCorrelationID}}:{{end}}= brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
+        rmsg, err {{ if not $value.HaveReplyCorrelationID}}:{{end}}= brokerMessageTo{{opToMsgTypeName .ReplyIs}}(acknowledgeableBrokerMessage.BrokerMessage)
         if err != nil {
             return nil, err
         }
-- 
2.43.0


From 32e22960a46e96742d36d1145fd9f4c99d002900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 35/77] fix: use the existing template to name the types of
 anyOf and oneOf

---
 pkg/codegen/generators/v2/templates/schema_name.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/schema_name.tmpl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 79c6940..90e4b72 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -63,7 +63,7 @@ struct {
 {{- if $value.Description}}
     // Description: {{multiLineComment $value.Description}}
 {{- end}}
-    {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}} *{{template "schema" $value}}
+    {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}} *{{template "schema-name" $value}}
 {{end -}}
 }
 
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index 03bc71a..f0692d3 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -63,7 +63,7 @@ struct {
 {{- if $value.Description}}
     // Description: {{multiLineComment $value.Description}}
 {{- end}}
-    {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}} *{{template "schema" $value}}
+    {{ if $value.Reference}}{{ .ReferenceTo.Name }}{{else}}AnyOf{{$key}}{{end}} *{{template "schema-name" $value}}
 {{end -}}
 }
 
-- 
2.43.0


From 650360f82cf1e85e081e07afaa55c2e89677ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 36/77] fix: acknowledge messages once every middleware
 succeeded

---
 pkg/codegen/generators/v2/templates/controller.tmpl | 13 ++++++-------
 pkg/codegen/generators/v3/templates/controller.tmpl | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 47b8f62..01078fa 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -236,20 +236,19 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
         {{- end}}
 
         // Execute the subscription function
-        if err := fn(middlewareCtx, msg); err != nil {
-            return err
-        }
-
-        acknowledgeableBrokerMessage.Ack()
-
-        return nil
+        return fn(middlewareCtx, msg)
     }); err != nil {
         c.errorHandler(msgCtx, path, &acknowledgeableBrokerMessage, err)
         // On error execute the acknowledgeableBrokerMessage nack() function and
         // let the BrokerAcknowledgment decide what is the right nack behavior for the broker
         acknowledgeableBrokerMessage.Nak()
+
+        return false, nil
     }
 
+    // The message has been handled, by the middlewares and the subscription function
+    acknowledgeableBrokerMessage.Ack()
+
     return false, nil
 }
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 8fc7225..7d78840 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -239,20 +239,19 @@ func (c *{{ $.Prefix }}Controller) listenTo{{ namify $value.Follow.Name }}NextMe
         {{- end}}
 
         // Execute the subscription function
-        if err := fn(middlewareCtx, msg); err != nil {
-            return err
-        }
-
-        acknowledgeableBrokerMessage.Ack()
-
-        return nil
+        return fn(middlewareCtx, msg)
     }); err != nil {
         c.errorHandler(msgCtx, addr, &acknowledgeableBrokerMessage, err)
         // On error execute the acknowledgeableBrokerMessage nack() function and
         // let the BrokerAcknowledgment decide what is the right nack behavior for the broker
         acknowledgeableBrokerMessage.Nak()
+
+        return false, nil
     }
 
+    // The message has been handled, by the middlewares and the subscription function
+    acknowledgeableBrokerMessage.Ack()
+
     return false, nil
 }
 
-- 
2.43.0


From c6bbfbdf74cc102d2e93507c311c6a767b29fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 37/77] fix: return an error from the recovery middleware after
 a panic

---
 pkg/extensions/errors.go               | 3 +++
 pkg/extensions/middlewares/recovery.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/errors.go b/pkg/extensions/errors.go
index af97810..06dad43 100644
--- a/pkg/extensions/errors.go
+++ b/pkg/extensions/errors.go
@@ -34,4 +34,7 @@ var (
 	// ErrChannelAddressEmpty is raised when a given channel address is empty,
 	// when dynamically set from message.
 	ErrChannelAddressEmpty = fmt.Errorf("%w: channel address empty", ErrAsyncAPI)
+
+	// ErrRecoveredFromPanic is raised when a panic happened during the processing of a message.
+	ErrRecoveredFromPanic = fmt.Errorf("%w: recovered from panic", ErrAsyncAPI)
 )
diff --git a/pkg/extensions/middlewares/recovery.go b/pkg/extensions/middlewares/recovery.go
index b5e7782..47f0fcf 100644
--- a/pkg/extensions/middlewares/recovery.go
+++ b/pkg/extensions/middlewares/recovery.go
@@ -10,11 +10,12 @@ import (
 // Recovery is a middleware that recovers from panic in middlewares coming after
 // it and user code from subscription.
 func Recovery(logger extensions.Logger) extensions.Middleware {
-	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
+	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) (err error) {
 		// Recover in case of panic
 		defer func() {
 			if r := recover(); r != nil {
 				logger.Error(ctx, fmt.Sprintf("Recovered from panic: %v", r))
+				err = fmt.Errorf("%w: %v", extensions.ErrRecoveredFromPanic, r)
 			}
 		}()
 
-- 
2.43.0


From 5c3d5cc22752eedb711c2f3a78caabae526fae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 38/77] fix: do not let the options of a kafka controller
 modify the default dialer

---
 pkg/extensions/brokers/kafka/kafka.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index 99c83ac..a755bc3 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -46,12 +46,15 @@ type ControllerOption func(controller *Controller)
 
 // NewController creates a new KafkaController that fulfill the BrokerLinker interface.
 func NewController(hosts []string, options ...ControllerOption) (*Controller, error) {
+	// Copy the default dialer, as it is shared and can be modified by options
+	dialer := *kafka.DefaultDialer
+
 	// Create default controller
 	controller := &Controller{
 		hosts:          hosts,
 		logger:         extensions.DummyLogger{},
 		groupID:        brokers.DefaultQueueGroupID,
-		dialer:         kafka.DefaultDialer,
+		dialer:         &dialer,
 		partition:      0,
 		maxBytes:       10e6, // 10MB
 		autoCommit:     true,
-- 
2.43.0


From 7cde84f2f6fd1b7ce44ff4e1ce4c1c107433608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 39/77] fix: release the brokers' connections when a controller
 can't be created

---
 pkg/extensions/brokers/kafka/kafka.go                 |  2 +-
 pkg/extensions/brokers/nats/nats.go                   | 10 ++++++++++
 pkg/extensions/brokers/natsjetstream/natsjetstream.go |  9 +++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/kafka/kafka.go b/pkg/extensions/brokers/kafka/kafka.go
index a755bc3..30874eb 100644
--- a/pkg/extensions/brokers/kafka/kafka.go
+++ b/pkg/extensions/brokers/kafka/kafka.go
@@ -74,12 +74,12 @@ func NewController(hosts []string, options ...ControllerOption) (*Controller, er
 		if err != nil {
 			return nil, fmt.Errorf("failed to create dialer for kafka: %w", err)
 		}
+		defer conn.Close()
 
 		_, err = conn.Brokers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to connect to kafka: %w", err)
 		}
-		conn.Close()
 	}
 
 	return controller, nil
diff --git a/pkg/extensions/brokers/nats/nats.go b/pkg/extensions/brokers/nats/nats.go
index 1380540..d7956b2 100644
--- a/pkg/extensions/brokers/nats/nats.go
+++ b/pkg/extensions/brokers/nats/nats.go
@@ -36,6 +36,11 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
+			// Release the connection opened by a previous option
+			if controller.connection != nil {
+				controller.connection.Close()
+			}
+
 			return nil, fmt.Errorf("could not apply option to controller: %w", err)
 		}
 	}
@@ -76,6 +81,11 @@ func WithConnectionOpts(opts ...nats.Option) ControllerOption {
 		if err != nil {
 			return fmt.Errorf("could not connect to nats: %w", err)
 		}
+
+		// Release the connection opened by a previous option
+		if controller.connection != nil {
+			controller.connection.Close()
+		}
 		controller.connection = nc
 		return nil
 	}
diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index 108423c..cc1abf6 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -44,6 +44,14 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 		nakDelay:       time.Second * 5,
 	}
 
+	// Release the connection if the controller can't be created
+	created := false
+	defer func() {
+		if !created {
+			controller.Close()
+		}
+	}()
+
 	// Execute options
 	for _, option := range options {
 		if err := option(controller); err != nil {
@@ -83,6 +91,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 		}
 	}
 
+	created = true
 	return controller, nil
 }
 
-- 
2.43.0


From 4fadcd8c7c9a9a1cbb7b07b6781bdfc55ed05c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 40/77] fix: protect the subscriptions of the jetstream
 controller against concurrent uses

---
 .../brokers/natsjetstream/natsjetstream.go    | 115 ++++++++++++++----
 1 file changed, 92 insertions(+), 23 deletions(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index cc1abf6..fb3252e 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
@@ -25,12 +26,23 @@ type Controller struct {
 	logger         extensions.Logger
 	streamName     string
 	consumerName   string
-	consumeContext jetstream.ConsumeContext
-	channels       map[string]chan jetstream.Msg
 	streamConfig   *jetstream.StreamConfig
 	consumerConfig *jetstream.ConsumerConfig
 
 	nakDelay time.Duration
+
+	// mutex protects the fields below
+	mutex          sync.Mutex
+	consumeContext jetstream.ConsumeContext
+	channels       map[string]*messagesQueue
+}
+
+// messagesQueue brings the messages of a channel to its subscriptions.
+type messagesQueue struct {
+	messages chan jetstream.Msg
+	// stopped is closed when there is no more subscription
+	stopped       chan struct{}
+	subscriptions int
 }
 
 // NewController creates a new NATS JetStream controller.
@@ -39,7 +51,7 @@ func NewController(url string, options ...ControllerOption) (*Controller, error)
 	controller := &Controller{
 		url:            url,
 		logger:         extensions.DummyLogger{},
-		channels:       make(map[string]chan jetstream.Msg),
+		channels:       make(map[string]*messagesQueue),
 		consumeContext: nil,
 		nakDelay:       time.Second * 5,
 	}
@@ -239,33 +251,70 @@ func (c *Controller) Subscribe(ctx context.Context, channel string) (extensions.
 		make(chan any, 1),
 	)
 
-	if c.channels[channel] == nil {
-		c.channels[channel] = make(chan jetstream.Msg)
-	}
+	queue := c.openQueue(channel)
 	if err := c.ConsumeIfNeeded(ctx); err != nil {
+		c.closeQueue(channel)
 		return extensions.BrokerChannelSubscription{}, err
 	}
 
+	stopped := make(chan struct{})
 	go func() {
-		for message := range c.channels[channel] {
-			c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
-				Key:   "message",
-				Value: message,
-			})
-			c.HandleMessage(ctx, message, sub)
+		for {
+			select {
+			case message := <-queue.messages:
+				c.logger.Info(ctx, fmt.Sprintf("Received message for %s", channel), extensions.LogInfo{
+					Key:   "message",
+					Value: message,
+				})
+				c.HandleMessage(ctx, message, sub)
+			case <-stopped:
+				return
+			}
 		}
 	}()
 
 	// Wait for cancellation and drain the NATS subscription
 	sub.WaitForCancellationAsync(func() {
-		close(c.channels[channel])
-		delete(c.channels, channel)
+		close(stopped)
+		c.closeQueue(channel)
 		c.StopConsumeIfNeeded()
 	})
 
 	return sub, nil
 }
 
+// openQueue adds a subscription to the queue of a channel, and creates it if needed.
+func (c *Controller) openQueue(channel string) *messagesQueue {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	queue := c.channels[channel]
+	if queue == nil {
+		queue = &messagesQueue{
+			messages: make(chan jetstream.Msg),
+			stopped:  make(chan struct{}),
+		}
+		c.channels[channel] = queue
+	}
+	queue.subscriptions++
+
+	return queue
+}
+
+// closeQueue removes a subscription from the queue of a channel, and the queue
+// itself if there is no more subscription.
+func (c *Controller) closeQueue(channel string) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	queue := c.channels[channel]
+	queue.subscriptions--
+	if queue.subscriptions == 0 {
+		close(queue.stopped)
+		delete(c.channels, channel)
+	}
+}
+
 // HandleMessage handles a message received from a stream.
 func (c *Controller) HandleMessage(ctx context.Context, msg jetstream.Msg, sub extensions.BrokerChannelSubscription) {
 	// Get headers
@@ -305,6 +354,9 @@ func (c *Controller) Close() {
 
 // ConsumeIfNeeded starts consuming messages if needed.
 func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.consumeContext == nil {
 		consumer, err := c.jetStream.Consumer(ctx, c.streamName, c.consumerName)
 		if err != nil {
@@ -322,6 +374,9 @@ func (c *Controller) ConsumeIfNeeded(ctx context.Context) error {
 
 // StopConsumeIfNeeded stops consuming messages if needed (there is no other subscription).
 func (c *Controller) StopConsumeIfNeeded() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if len(c.channels) == 0 && c.consumeContext != nil {
 		c.consumeContext.Stop()
 		c.consumeContext = nil
@@ -333,14 +388,8 @@ func (c *Controller) StopConsumeIfNeeded() {
 func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandler {
 	return func(msg jetstream.Msg) {
 		msgSubj := msg.Subject() // pull this into a var for debuggability
-		var responsibleSubscription string
-		for subjectSubscriptionPattern := range c.channels {
-			if MatchSubjectSubscription(subjectSubscriptionPattern, msgSubj) {
-				responsibleSubscription = subjectSubscriptionPattern
-				break
-			}
-		}
-		if responsibleSubscription == "" {
+		responsibleQueue := c.findQueue(msgSubj)
+		if responsibleQueue == nil {
 			c.logger.Warning(
 				ctx,
 				fmt.Sprintf(
@@ -355,8 +404,28 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 
 			return
 		}
-		c.channels[responsibleSubscription] <- msg
+
+		// The message will be redelivered if the last subscription is cancelled
+		// before getting it, as it won't be acknowledged.
+		select {
+		case responsibleQueue.messages <- msg:
+		case <-responsibleQueue.stopped:
+		}
+	}
+}
+
+// findQueue returns the queue that should get the messages of a subject, if any.
+func (c *Controller) findQueue(subject string) *messagesQueue {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	for subjectSubscriptionPattern, queue := range c.channels {
+		if MatchSubjectSubscription(subjectSubscriptionPattern, subject) {
+			return queue
+		}
 	}
+
+	return nil
 }
 
 // MatchSubjectSubscription checks whether a NATS subject matches a subscription string.
-- 
2.43.0


From 0534b9e2f340dd6505907d0b142c2acf87316c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 41/77] fix: log when a message without subscription can't be
 acknowledged

---
 pkg/extensions/brokers/natsjetstream/natsjetstream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/extensions/brokers/natsjetstream/natsjetstream.go b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
index fb3252e..f8be181 100644
--- a/pkg/extensions/brokers/natsjetstream/natsjetstream.go
+++ b/pkg/extensions/brokers/natsjetstream/natsjetstream.go
@@ -400,7 +400,9 @@ func (c *Controller) ConsumeMessage(ctx context.Context) jetstream.MessageHandle
 				extensions.LogInfo{Key: "msg.headers", Value: msg.Headers()},
 				extensions.LogInfo{Key: "msg.data", Value: msg.Data()},
 			)
-			_ = msg.Ack()
+			if err := msg.Ack(); err != nil {
+				c.logger.Error(ctx, fmt.Sprintf("error on ack message: %q", err.Error()))
+			}
 
 			return
 		}
-- 
2.43.0


From 976b1b0079c2df70e03dc8e79915a0fab3eeb1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 42/77] fix: describe types without addresses, and without
 losing the tags of the field

---
 .../generators/v2/templates/schema_name.tmpl     |  4 +---
 .../generators/v3/templates/schema_name.tmpl     |  4 +---
 pkg/utils/template/helpers.go                    | 16 ++++++++++++----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/schema_name.tmpl b/pkg/codegen/generators/v2/templates/schema_name.tmpl
index 90e4b72..faa5628 100644
--- a/pkg/codegen/generators/v2/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_name.tmpl
@@ -73,9 +73,7 @@ struct {
 
 {{- /* ----------------------- Unsupported use case ---------------------- */ -}}
 {{- else -}}
-interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
+interface{} /* WARNING: potential error in AsyncAPI generation, infos on type: {{ describeStruct . }} */
 {{- end -}}
 
 {{- end -}}
diff --git a/pkg/codegen/generators/v3/templates/schema_name.tmpl b/pkg/codegen/generators/v3/templates/schema_name.tmpl
index f0692d3..699f994 100644
--- a/pkg/codegen/generators/v3/templates/schema_name.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_name.tmpl
@@ -73,9 +73,7 @@ struct {
 
 {{- /* ----------------------- Unsupported usecase ---------------------- */ -}}
 {{- else -}}
-interface{}
-// WARNING: potential error in AsyncAPI generation
-// Infos on type: {{ describeStruct . }}
+interface{} /* WARNING: potential error in AsyncAPI generation, infos on type: {{ describeStruct . }} */
 {{- end -}}
 
 {{- end -}}
diff --git a/pkg/utils/template/helpers.go b/pkg/utils/template/helpers.go
index 8364c17..084a177 100644
--- a/pkg/utils/template/helpers.go
+++ b/pkg/utils/template/helpers.go
@@ -1,6 +1,7 @@
 package template
 
 import (
+	"encoding/json"
 	"fmt"
 	"html/template"
 	"reflect"
@@ -119,10 +120,17 @@ func HasField(v any, name string) bool {
 	return rv.FieldByName(name).IsValid()
 }
 
-// DescribeStruct will describe a struct in a human-readable way using `%+v`
-// format from the standard library.
-func DescribeStruct(st any) string {
-	return MultiLineComment(fmt.Sprintf("%+v", st))
+// DescribeStruct will describe a struct in a human-readable way, on one line and
+// without the addresses that it may contain (the description is reproducible).
+// It can be used inside a '/* */' comment.
+func DescribeStruct(st any) (string, error) {
+	desc, err := json.Marshal(st)
+	if err != nil {
+		return "", err
+	}
+
+	// The end of a comment can only be part of a string, where it can be escaped
+	return strings.ReplaceAll(string(desc), "*/", `*\/`), nil
 }
 
 // MultiLineComment will prefix each line of a comment with "// " in order to
-- 
2.43.0


From 74f19c839d0106eee7a0b6940114dec89bb54d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 43/77] fix: refuse documents whose version isn't the one of
 the document that depends on them

---
 pkg/asyncapi/parser/parse.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/asyncapi/parser/parse.go b/pkg/asyncapi/parser/parse.go
index 2bda5e9..8d0ef0e 100644
--- a/pkg/asyncapi/parser/parse.go
+++ b/pkg/asyncapi/parser/parse.go
@@ -110,12 +110,21 @@ type FromJSONParams struct {
 //nolint:ireturn,nolintlint
 func FromJSON(params FromJSONParams) (asyncapi.Specification, error) {
 	// Check that the version is correct
+	// NOTE: when the major version is given, the document can be in another format
+	// that has no AsyncAPI version (e.g. OpenAPI), but not in another version
 	majorVersion := params.MajorVersion
-	if majorVersion == 0 {
+	versioned, err := hasVersionFromJSON(params.Data)
+	if err != nil {
+		return nil, err
+	}
+	if majorVersion == 0 || versioned {
 		v, err := majorVersionFromJSON(params.Data)
 		if err != nil {
 			return nil, err
 		}
+		if majorVersion != 0 && majorVersion != v {
+			return nil, fmt.Errorf("%w: major version is %d instead of %d", ErrInvalidVersion, v, majorVersion)
+		}
 		majorVersion = v
 	}
 
@@ -139,6 +148,18 @@ func FromJSON(params FromJSONParams) (asyncapi.Specification, error) {
 	return spec, nil
 }
 
+func hasVersionFromJSON(data []byte) (bool, error) {
+	var m map[string]any
+
+	// Parse JSON
+	if err := json.Unmarshal(data, &m); err != nil {
+		return false, err
+	}
+
+	_, exists := m["asyncapi"]
+	return exists, nil
+}
+
 func versionFromJSON(data []byte) (string, error) {
 	var m map[string]any
 
-- 
2.43.0


From 90d3b50dd84aac1a9326cb84544f3a80a30bea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 44/77] fix: merge the messages referenced from a oneOf

---
 pkg/asyncapi/v2/message.go | 4 ++--
 pkg/asyncapi/v3/message.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 96489aa..2059c62 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -334,7 +334,7 @@ func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 	}
 
 	// Get reference from msg2
-	if err := msg.mergeWithMessageFromReference(msg2, spec); err != nil {
+	if err := msg.mergeWithMessageFromReference(&msg2, spec); err != nil {
 		return err
 	}
 
@@ -371,7 +371,7 @@ func (msg *Message) mergeWithSelfReference(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specification) error {
+func (msg *Message) mergeWithMessageFromReference(msg2 *Message, spec Specification) error {
 	if msg2.Reference != "" {
 		// Get referenced message
 		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 6383077..c8039dc 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -426,7 +426,7 @@ func (msg *Message) MergeWith(spec Specification, msg2 Message) error {
 	}
 
 	// Get reference from msg2
-	if err := msg.mergeWithMessageFromReference(msg2, spec); err != nil {
+	if err := msg.mergeWithMessageFromReference(&msg2, spec); err != nil {
 		return err
 	}
 
@@ -463,7 +463,7 @@ func (msg *Message) mergeWithSelfReference(spec Specification) error {
 	return nil
 }
 
-func (msg *Message) mergeWithMessageFromReference(msg2 Message, spec Specification) error {
+func (msg *Message) mergeWithMessageFromReference(msg2 *Message, spec Specification) error {
 	if msg2.Reference != "" {
 		// Get referenced message
 		refMsg2, err := spec.ReferenceMessage(msg2.Reference)
-- 
2.43.0


From ab6e559c02d2fde1a64d314ce954f0ae386976d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 45/77] fix: copy schemas without the ones they refer to

---
 pkg/asyncapi/v2/schema.go | 55 ++++++++++++++++++++++++++++++++++++
 pkg/asyncapi/v3/schema.go | 59 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 114 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 7e5792c..1dc32fb 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -472,3 +472,58 @@ func (s *Schema) Follow() *Schema {
 	}
 	return s
 }
+
+// DeepCopy copies the schema and the schemas it is made of. Referenced schemas
+// are not copied, as they can refer back to this one.
+func (s *Schema) DeepCopy() any {
+	return s.deepCopy(make(map[*Schema]*Schema))
+}
+
+func (s *Schema) deepCopy(copies map[*Schema]*Schema) *Schema {
+	if s == nil {
+		return nil
+	}
+
+	// Return the copy if there is already one
+	if c, exists := copies[s]; exists {
+		return c
+	}
+
+	c := *s
+	copies[s] = &c
+
+	// Copy children
+	c.Properties = deepCopySchemaMap(s.Properties, copies)
+	c.AdditionalProperties = s.AdditionalProperties.deepCopy(copies)
+	c.Items = s.Items.deepCopy(copies)
+	c.AllOf = deepCopySchemaSlice(s.AllOf, copies)
+	c.AnyOf = deepCopySchemaSlice(s.AnyOf, copies)
+	c.OneOf = deepCopySchemaSlice(s.OneOf, copies)
+	c.Required = append([]string(nil), s.Required...)
+
+	return &c
+}
+
+func deepCopySchemaMap(schemas map[string]*Schema, copies map[*Schema]*Schema) map[string]*Schema {
+	if schemas == nil {
+		return nil
+	}
+
+	m := make(map[string]*Schema, len(schemas))
+	for k, v := range schemas {
+		m[k] = v.deepCopy(copies)
+	}
+	return m
+}
+
+func deepCopySchemaSlice(schemas []*Schema, copies map[*Schema]*Schema) []*Schema {
+	if schemas == nil {
+		return nil
+	}
+
+	l := make([]*Schema, 0, len(schemas))
+	for _, v := range schemas {
+		l = append(l, v.deepCopy(copies))
+	}
+	return l
+}
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index cbf766b..ddbdc24 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -475,3 +475,62 @@ func (s *Schema) Follow() *Schema {
 	}
 	return s
 }
+
+// DeepCopy copies the schema and the schemas it is made of. Referenced schemas
+// are not copied, as they can refer back to this one.
+func (s *Schema) DeepCopy() any {
+	return s.deepCopy(make(map[*Schema]*Schema))
+}
+
+func (s *Schema) deepCopy(copies map[*Schema]*Schema) *Schema {
+	if s == nil {
+		return nil
+	}
+
+	// Return the copy if there is already one
+	if c, exists := copies[s]; exists {
+		return c
+	}
+
+	c := *s
+	copies[s] = &c
+
+	// Copy children
+	c.Properties = deepCopySchemaMap(s.Properties, copies)
+	c.PatternProperties = deepCopySchemaMap(s.PatternProperties, copies)
+	c.AdditionalProperties = s.AdditionalProperties.deepCopy(copies)
+	c.Items = s.Items.deepCopy(copies)
+	c.Not = s.Not.deepCopy(copies)
+	c.AdditionalItems = deepCopySchemaSlice(s.AdditionalItems, copies)
+	c.Contains = deepCopySchemaSlice(s.Contains, copies)
+	c.AllOf = deepCopySchemaSlice(s.AllOf, copies)
+	c.AnyOf = deepCopySchemaSlice(s.AnyOf, copies)
+	c.OneOf = deepCopySchemaSlice(s.OneOf, copies)
+	c.Required = append([]string(nil), s.Required...)
+
+	return &c
+}
+
+func deepCopySchemaMap(schemas map[string]*Schema, copies map[*Schema]*Schema) map[string]*Schema {
+	if schemas == nil {
+		return nil
+	}
+
+	m := make(map[string]*Schema, len(schemas))
+	for k, v := range schemas {
+		m[k] = v.deepCopy(copies)
+	}
+	return m
+}
+
+func deepCopySchemaSlice(schemas []*Schema, copies map[*Schema]*Schema) []*Schema {
+	if schemas == nil {
+		return nil
+	}
+
+	l := make([]*Schema, 0, len(schemas))
+	for _, v := range schemas {
+		l = append(l, v.deepCopy(copies))
+	}
+	return l
+}
-- 
2.43.0


From 1000f4b565ec7abdc5c5eae1ea740668ac9c32bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 46/77] fix: merge into the content of a referenced schema

---
 pkg/asyncapi/v2/schema.go | 9 +++++++++
 pkg/asyncapi/v3/schema.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 1dc32fb..2f5b1f8 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -322,6 +322,15 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Remove reference if merging
+	if s.ReferenceTo != nil {
+		refTo := s.ReferenceTo
+		s.Reference, s.ReferenceTo = "", nil
+		if err := s.MergeWith(spec, Schema{ReferenceTo: refTo}); err != nil {
+			return err
+		}
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index ddbdc24..aca829e 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -325,6 +325,15 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 
 	s.Type = SchemaTypeIsObject.String()
 
+	// Remove reference if merging
+	if s.ReferenceTo != nil {
+		refTo := s.ReferenceTo
+		s.Reference, s.ReferenceTo = "", nil
+		if err := s.MergeWith(spec, Schema{ReferenceTo: refTo}); err != nil {
+			return err
+		}
+	}
+
 	// Merge with other fields
 	s.mergeWithSchemaAllOf(s2)
 	s.mergeWithSchemaAnyOf(s2)
-- 
2.43.0


From 500e483157996a810b01d1245e4ff6764d99ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 47/77] fix: process the target of a reference before using it

---
 pkg/asyncapi/v2/message.go                 | 12 ++++++++++++
 pkg/asyncapi/v2/parameter.go               | 12 ++++++++++++
 pkg/asyncapi/v2/schema.go                  | 12 ++++++++++++
 pkg/asyncapi/v3/channel.go                 | 11 +++++++++--
 pkg/asyncapi/v3/correlation_id.go          | 11 +++++++++--
 pkg/asyncapi/v3/message.go                 | 11 +++++++++--
 pkg/asyncapi/v3/message_trait.go           | 11 +++++++++--
 pkg/asyncapi/v3/operation.go               | 11 +++++++++--
 pkg/asyncapi/v3/operation_reply.go         | 11 +++++++++--
 pkg/asyncapi/v3/operation_reply_address.go | 11 +++++++++--
 pkg/asyncapi/v3/operation_trait.go         | 11 +++++++++--
 pkg/asyncapi/v3/schema.go                  | 11 +++++++++--
 12 files changed, 117 insertions(+), 18 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 2059c62..57671fe 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -53,6 +53,9 @@ type Message struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v2.6.0#correlationIDObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates the metadata for the Message and its children.
@@ -83,6 +86,12 @@ func (msg *Message) generateMetadata(name string) error {
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
+	// Prevent modification if already done
+	if msg.dependenciesSet {
+		return nil
+	}
+	msg.dependenciesSet = true
+
 	// Set Payload dependencies
 	if msg.Payload != nil {
 		if err := msg.Payload.setDependencies(spec); err != nil {
@@ -97,6 +106,9 @@ func (msg *Message) setDependencies(spec Specification) error {
 			return err
 		}
 		msg.ReferenceTo = refTo
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set Headers dependencies
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 17367bf..5622205 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -17,6 +17,9 @@ type Parameter struct {
 
 	Name        string     `json:"-"`
 	ReferenceTo *Parameter `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generate metadata for the parameter and its children.
@@ -34,6 +37,12 @@ func (p *Parameter) generateMetadata(name string) error {
 
 // setDependencies set dependencies for the parameter from specification.
 func (p *Parameter) setDependencies(spec Specification) error {
+	// Prevent modification if already done
+	if p.dependenciesSet {
+		return nil
+	}
+	p.dependenciesSet = true
+
 	// Add pointer to reference if there is one
 	if p.Reference != "" {
 		refTo, err := spec.ReferenceParameter(p.Reference)
@@ -41,6 +50,9 @@ func (p *Parameter) setDependencies(spec Specification) error {
 			return err
 		}
 		p.ReferenceTo = refTo
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set schema dependencies if present
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 2f5b1f8..3d0e28d 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -48,6 +48,9 @@ type Schema struct {
 
 	// Embedded extended fields
 	Extensions
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // NewSchema creates a new Schema structure with initialized fields.
@@ -116,6 +119,12 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Prevent modification if already done
+	if s.dependenciesSet {
+		return nil
+	}
+	s.dependenciesSet = true
+
 	// Reference to another schema if specified
 	if s.Reference != "" {
 		refTo, err := spec.ReferenceSchema(s.Reference)
@@ -123,6 +132,9 @@ func (s *Schema) setDependencies(spec Specification) error {
 			return err
 		}
 		s.ReferenceTo = refTo
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 		s.setValidationsFromReferenced(refTo)
 	}
 
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index c3ad562..2325157 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -39,6 +39,9 @@ type Channel struct {
 
 	Name        string   `json:"-"`
 	ReferenceTo *Channel `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the Channel.
@@ -83,10 +86,11 @@ func (ch *Channel) generateMetadata(parentName, name string) error {
 //
 //nolint:cyclop
 func (ch *Channel) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if ch == nil {
+	// Prevent modification if nil or already done
+	if ch == nil || ch.dependenciesSet {
 		return nil
 	}
+	ch.dependenciesSet = true
 
 	// Set reference
 	if err := ch.setReference(spec); err != nil {
@@ -141,6 +145,9 @@ func (ch *Channel) setReference(spec Specification) error {
 		return err
 	}
 	ch.ReferenceTo = refTo
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
 
 	return nil
 }
diff --git a/pkg/asyncapi/v3/correlation_id.go b/pkg/asyncapi/v3/correlation_id.go
index ea44775..ea9006a 100644
--- a/pkg/asyncapi/v3/correlation_id.go
+++ b/pkg/asyncapi/v3/correlation_id.go
@@ -14,6 +14,9 @@ type CorrelationID struct {
 
 	Name        string         `json:"-"`
 	ReferenceTo *CorrelationID `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the CorrelationID.
@@ -29,10 +32,11 @@ func (c *CorrelationID) generateMetadata(parentName, name string) {
 
 // setDependencies sets dependencies between the different elements of the CorrelationID.
 func (c *CorrelationID) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if c == nil {
+	// Prevent modification if nil or already done
+	if c == nil || c.dependenciesSet {
 		return nil
 	}
+	c.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if c.Reference != "" {
@@ -41,6 +45,9 @@ func (c *CorrelationID) setDependencies(spec Specification) error {
 			return err
 		}
 		c.ReferenceTo = refTo
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index c8039dc..1c9778f 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -60,6 +60,9 @@ type Message struct {
 	// CorrelationIDLocation will indicate where the correlation id is
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDRequired bool `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the Message.
@@ -115,10 +118,11 @@ func (msg *Message) generateMetadata(parentName, name string, number *int) error
 
 // setDependencies sets dependencies between the different elements of the Message.
 func (msg *Message) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if msg == nil {
+	// Prevent modification if nil or already done
+	if msg == nil || msg.dependenciesSet {
 		return nil
 	}
+	msg.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if err := msg.setReference(spec); err != nil {
@@ -187,6 +191,9 @@ func (msg *Message) setReference(spec Specification) error {
 		return err
 	}
 	msg.ReferenceTo = refMsg
+	if err := refMsg.setDependencies(spec); err != nil {
+		return err
+	}
 
 	return nil
 }
diff --git a/pkg/asyncapi/v3/message_trait.go b/pkg/asyncapi/v3/message_trait.go
index 00edb1e..aac86fa 100644
--- a/pkg/asyncapi/v3/message_trait.go
+++ b/pkg/asyncapi/v3/message_trait.go
@@ -28,6 +28,9 @@ type MessageTrait struct {
 	// According to: https://www.asyncapi.com/docs/reference/specification/v3.0.0#correlationIdObject
 	CorrelationIDLocation string `json:"-"`
 	CorrelationIDRequired bool   `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the MessageTrait.
@@ -76,10 +79,11 @@ func (mt *MessageTrait) generateMetadata(parentName, name string, number *int) e
 //
 //nolint:cyclop
 func (mt *MessageTrait) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if mt == nil {
+	// Prevent modification if nil or already done
+	if mt == nil || mt.dependenciesSet {
 		return nil
 	}
+	mt.dependenciesSet = true
 
 	// Set reference
 	if err := mt.setReference(spec); err != nil {
@@ -138,6 +142,9 @@ func (mt *MessageTrait) setReference(spec Specification) error {
 		return err
 	}
 	mt.ReferenceTo = refTo
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
 
 	return nil
 }
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 6e944a1..54c978a 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -52,6 +52,9 @@ type Operation struct {
 	ReplyIs     *Operation `json:"-"`
 	ReplyOf     *Operation `json:"-"`
 	ReferenceTo *Operation `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 func (op *Operation) generateMetadata(parentName, name string) error {
@@ -91,10 +94,11 @@ func (op *Operation) generateMetadata(parentName, name string) error {
 //
 //nolint:cyclop
 func (op *Operation) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if op == nil {
+	// Prevent modification if nil or already done
+	if op == nil || op.dependenciesSet {
 		return nil
 	}
+	op.dependenciesSet = true
 
 	// Set reference
 	if err := op.setReference(spec); err != nil {
@@ -159,6 +163,9 @@ func (op *Operation) setReference(spec Specification) error {
 		return err
 	}
 	op.ReferenceTo = refTo
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
 
 	return nil
 }
diff --git a/pkg/asyncapi/v3/operation_reply.go b/pkg/asyncapi/v3/operation_reply.go
index 556ebcf..4e18cf6 100644
--- a/pkg/asyncapi/v3/operation_reply.go
+++ b/pkg/asyncapi/v3/operation_reply.go
@@ -15,6 +15,9 @@ type OperationReply struct {
 
 	Name        string          `json:"-"`
 	ReferenceTo *OperationReply `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the OperationReply.
@@ -35,10 +38,11 @@ func (or *OperationReply) generateMetadata(parentName, name string) error {
 
 // setDependencies sets dependencies between the different elements of the OperationReply.
 func (or *OperationReply) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if or == nil {
+	// Prevent modification if nil or already done
+	if or == nil || or.dependenciesSet {
 		return nil
 	}
+	or.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if or.Reference != "" {
@@ -47,6 +51,9 @@ func (or *OperationReply) setDependencies(spec Specification) error {
 			return err
 		}
 		or.ReferenceTo = refTo
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set channel dependencies if there is one
diff --git a/pkg/asyncapi/v3/operation_reply_address.go b/pkg/asyncapi/v3/operation_reply_address.go
index b0f7a57..cc7f3f2 100644
--- a/pkg/asyncapi/v3/operation_reply_address.go
+++ b/pkg/asyncapi/v3/operation_reply_address.go
@@ -18,6 +18,9 @@ type OperationReplyAddress struct {
 
 	Name        string                 `json:"-"`
 	ReferenceTo *OperationReplyAddress `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the OperationReplyAddress.
@@ -33,10 +36,11 @@ func (ora *OperationReplyAddress) generateMetadata(parentName, name string) {
 
 // setDependencies sets dependencies between the different elements of the OperationReplyAddress.
 func (ora *OperationReplyAddress) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if ora == nil {
+	// Prevent modification if nil or already done
+	if ora == nil || ora.dependenciesSet {
 		return nil
 	}
+	ora.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if ora.Reference != "" {
@@ -45,6 +49,9 @@ func (ora *OperationReplyAddress) setDependencies(spec Specification) error {
 			return err
 		}
 		ora.ReferenceTo = refTo
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/pkg/asyncapi/v3/operation_trait.go b/pkg/asyncapi/v3/operation_trait.go
index bde744e..a106956 100644
--- a/pkg/asyncapi/v3/operation_trait.go
+++ b/pkg/asyncapi/v3/operation_trait.go
@@ -19,6 +19,9 @@ type OperationTrait struct {
 
 	Name        string          `json:"-"`
 	ReferenceTo *OperationTrait `json:"-"`
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // generateMetadata generates metadata for the OperationTrait.
@@ -50,10 +53,11 @@ func (ot *OperationTrait) generateMetadata(parentName, name string, number *int)
 
 // setDependencies sets dependencies for the OperationTrait.
 func (ot *OperationTrait) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if ot == nil {
+	// Prevent modification if nil or already done
+	if ot == nil || ot.dependenciesSet {
 		return nil
 	}
+	ot.dependenciesSet = true
 
 	// Add pointer to reference if there is one
 	if ot.Reference != "" {
@@ -62,6 +66,9 @@ func (ot *OperationTrait) setDependencies(spec Specification) error {
 			return err
 		}
 		ot.ReferenceTo = refTo
+		if err := refTo.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set securities dependencies
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index aca829e..2cd3261 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -66,6 +66,9 @@ type Schema struct {
 	// --- Embedded extended fields --------------------------------------------
 
 	Extensions
+
+	// dependenciesSet indicates that the dependencies are already set
+	dependenciesSet bool
 }
 
 // NewSchema creates a new Schema structure with initialized fields.
@@ -169,10 +172,11 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 //
 //nolint:funlen,cyclop // Not necessary to reduce length and cyclop
 func (s *Schema) setDependencies(spec Specification) error {
-	// Prevent modification if nil
-	if s == nil {
+	// Prevent modification if nil or already done
+	if s == nil || s.dependenciesSet {
 		return nil
 	}
+	s.dependenciesSet = true
 
 	// Set reference
 	if err := s.setReference(spec); err != nil {
@@ -298,6 +302,9 @@ func (s *Schema) setReference(spec Specification) error {
 		return err
 	}
 	s.ReferenceTo = refTo
+	if err := refTo.setDependencies(spec); err != nil {
+		return err
+	}
 	s.Validations.Merge(refTo.Validations)
 
 	return nil
-- 
2.43.0


From b05cc420673ffdf57ce9a9fe10dcfc7de2d32a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 48/77] fix: process the tags of operations

---
 pkg/asyncapi/v3/operation.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 54c978a..2b115ea 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -71,6 +71,11 @@ func (op *Operation) generateMetadata(parentName, name string) error {
 		sec.generateMetadata(op.Name, "", &i)
 	}
 
+	// Generate tags metadata
+	for i, t := range op.Tags {
+		t.generateMetadata(op.Name, "", &i)
+	}
+
 	// Generate external doc metadata if there is one
 	op.ExternalDocs.generateMetadata(op.Name, ExternalDocsNameSuffix)
 
@@ -117,6 +122,13 @@ func (op *Operation) setDependencies(spec Specification) error {
 		}
 	}
 
+	// Set tags dependencies
+	for _, t := range op.Tags {
+		if err := t.setDependencies(spec); err != nil {
+			return err
+		}
+	}
+
 	// Set external doc dependencies if there is one
 	if err := op.ExternalDocs.setDependencies(spec); err != nil {
 		return err
-- 
2.43.0


From 50f1a8135fec9d46f8f6960dcc397557da0736fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 49/77] fix: accept empty strings in UpperFirstLetter

---
 pkg/utils/string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/utils/string.go b/pkg/utils/string.go
index ef6f5d7..0887ee9 100644
--- a/pkg/utils/string.go
+++ b/pkg/utils/string.go
@@ -4,6 +4,10 @@ import "unicode"
 
 // UpperFirstLetter returns the given string with the first letter in uppercase.
 func UpperFirstLetter(str string) string {
+	if str == "" {
+		return ""
+	}
+
 	r := []rune(str)
 	r[0] = unicode.ToUpper(r[0])
 	return string(r)
-- 
2.43.0


From 372a54c981fad461576d63bedb6f87ecf4b049a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 50/77] fix: accept null entries in documents

---
 pkg/asyncapi/v2/channel.go         | 10 ++++++++++
 pkg/asyncapi/v2/extensions.go      | 16 +++++++++++++++-
 pkg/asyncapi/v2/message.go         | 16 +++++++++++++++-
 pkg/asyncapi/v2/operation.go       | 10 ++++++++++
 pkg/asyncapi/v2/parameter.go       | 10 ++++++++++
 pkg/asyncapi/v2/schema.go          | 26 ++++++++++++++++++++++++--
 pkg/asyncapi/v2/specification.go   |  4 ++++
 pkg/asyncapi/v3/channel.go         |  4 +++-
 pkg/asyncapi/v3/extensions.go      | 14 ++++++++++++++
 pkg/asyncapi/v3/message.go         | 10 +++++++++-
 pkg/asyncapi/v3/operation.go       |  6 +++++-
 pkg/asyncapi/v3/schema.go          | 16 ++++++++++++++--
 pkg/asyncapi/v3/security_scheme.go |  4 ++++
 pkg/asyncapi/v3/specification.go   |  3 +++
 pkg/asyncapi/v3/tag.go             |  4 ++++
 15 files changed, 144 insertions(+), 9 deletions(-)

diff --git a/pkg/asyncapi/v2/channel.go b/pkg/asyncapi/v2/channel.go
index 580d016..34dadb8 100644
--- a/pkg/asyncapi/v2/channel.go
+++ b/pkg/asyncapi/v2/channel.go
@@ -21,6 +21,11 @@ type Channel struct {
 
 // generateMetadata generate metadata for the channel and its children.
 func (c *Channel) generateMetadata(path string) error {
+	// Prevent modification if nil
+	if c == nil {
+		return nil
+	}
+
 	// Set channel name and path
 	c.Name = template.Namify(path)
 	c.Path = path
@@ -58,6 +63,11 @@ func (c *Channel) generateMetadata(path string) error {
 
 // setDependencies set dependencies for the channel and its children from specification.
 func (c *Channel) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if c == nil {
+		return nil
+	}
+
 	// Set subscribe operation dependencies if present
 	if c.Subscribe != nil {
 		if err := c.Subscribe.setDependencies(spec); err != nil {
diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index c1785ec..b28a516 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -40,6 +40,11 @@ type GoTypeImportName string
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
 func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Skip if nil
+	if s == nil {
+		return nil
+	}
+
 	// Process Properties
 	for _, p := range s.Properties {
 		if err := p.goTypeImports(imports); err != nil {
@@ -79,6 +84,11 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 
 // goTypeImports collects custom imports in the payload and headers of this message.
 func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Skip if nil
+	if msg == nil {
+		return nil
+	}
+
 	if msg.Payload != nil {
 		if err := msg.Payload.goTypeImports(imports); err != nil {
 			return fmt.Errorf("payload custom import error: %w", err)
@@ -114,6 +124,10 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	}
 
 	for _, ch := range s.Channels {
+		if ch == nil {
+			continue
+		}
+
 		for _, op := range []*Operation{ch.Publish, ch.Subscribe} {
 			if op == nil {
 				continue
@@ -126,7 +140,7 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	}
 
 	for _, v := range s.Components.Parameters {
-		if v.Schema != nil {
+		if v != nil && v.Schema != nil {
 			if err := v.Schema.goTypeImports(importsSet); err != nil {
 				return nil, fmt.Errorf("/components/parameters custom import error: %w", err)
 			}
diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 57671fe..50b0707 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -60,6 +60,11 @@ type Message struct {
 
 // generateMetadata generates the metadata for the Message and its children.
 func (msg *Message) generateMetadata(name string) error {
+	// Prevent modification if nil
+	if msg == nil {
+		return nil
+	}
+
 	msg.Name = template.Namify(name)
 
 	// Generate Payload metadata
@@ -86,6 +91,11 @@ func (msg *Message) generateMetadata(name string) error {
 
 // setDependencies sets the dependencies for the Message and its children from the specification.
 func (msg *Message) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if msg == nil {
+		return nil
+	}
+
 	// Prevent modification if already done
 	if msg.dependenciesSet {
 		return nil
@@ -189,6 +199,10 @@ func (msg *Message) generateOneOfMetadata() error {
 
 func (msg *Message) setOneOfDependencies(spec Specification) error {
 	for _, v := range msg.OneOf {
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -301,7 +315,7 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
-		if !exists { // If it doesn't exist
+		if !exists || child == nil { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
 			child.Name = correlationIDParent.Name + template.Namify(v)
diff --git a/pkg/asyncapi/v2/operation.go b/pkg/asyncapi/v2/operation.go
index 551e934..c151717 100644
--- a/pkg/asyncapi/v2/operation.go
+++ b/pkg/asyncapi/v2/operation.go
@@ -22,6 +22,11 @@ type Operation struct {
 
 // generateMetadata generate metadata for the operation and its children.
 func (op *Operation) generateMetadata(name string) error {
+	// Prevent modification if nil
+	if op == nil {
+		return nil
+	}
+
 	op.Name = template.Namify(name)
 
 	// Get message name
@@ -38,6 +43,11 @@ func (op *Operation) generateMetadata(name string) error {
 
 // setDependencies set dependencies for the operation and its children from specification.
 func (op *Operation) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if op == nil {
+		return nil
+	}
+
 	// Set message dependencies
 	return op.Message.setDependencies(spec)
 }
diff --git a/pkg/asyncapi/v2/parameter.go b/pkg/asyncapi/v2/parameter.go
index 5622205..a39dc44 100644
--- a/pkg/asyncapi/v2/parameter.go
+++ b/pkg/asyncapi/v2/parameter.go
@@ -24,6 +24,11 @@ type Parameter struct {
 
 // generateMetadata generate metadata for the parameter and its children.
 func (p *Parameter) generateMetadata(name string) error {
+	// Prevent modification if nil
+	if p == nil {
+		return nil
+	}
+
 	// Add parameter name
 	p.Name = template.Namify(name)
 
@@ -37,6 +42,11 @@ func (p *Parameter) generateMetadata(name string) error {
 
 // setDependencies set dependencies for the parameter from specification.
 func (p *Parameter) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if p == nil {
+		return nil
+	}
+
 	// Prevent modification if already done
 	if p.dependenciesSet {
 		return nil
diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 3d0e28d..68ab1f2 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -65,6 +65,11 @@ func NewSchema() Schema {
 
 // generateMetadata generates metadata for the schema and its children.
 func (s *Schema) generateMetadata(name string, isRequired bool) error {
+	// Prevent modification if nil
+	if s == nil {
+		return nil
+	}
+
 	s.Name = template.Namify(name)
 
 	// Generate Properties metadata
@@ -119,6 +124,11 @@ func (s *Schema) setValidationsFromReferenced(refTo *Schema) {
 
 // setDependencies sets dependencies for the schema from the specification.
 func (s *Schema) setDependencies(spec Specification) error {
+	// Prevent modification if nil
+	if s == nil {
+		return nil
+	}
+
 	// Prevent modification if already done
 	if s.dependenciesSet {
 		return nil
@@ -226,6 +236,10 @@ func (s *Schema) generateaAnyOfMetadata() error {
 
 func (s *Schema) setAnyOfDependencies(spec Specification) error {
 	for _, v := range s.AnyOf {
+		if v == nil {
+			continue
+		}
+
 		// Set dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -252,6 +266,10 @@ func (s *Schema) generateOneOfMetadata() error {
 
 func (s *Schema) setOneOfDependencies(spec Specification) error {
 	for _, v := range s.OneOf {
+		if v == nil {
+			continue
+		}
+
 		// Set dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -278,6 +296,10 @@ func (s *Schema) generateAllOfMetadata() error {
 
 func (s *Schema) setAllOfDependencies(spec Specification) error {
 	for _, v := range s.AllOf {
+		if v == nil {
+			continue
+		}
+
 		// Set dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -461,9 +483,9 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 
 	// Add properties from s2 reference to s
 	for k, v := range s2.ReferenceTo.Properties {
-		// Skip if the property already exists
+		// Skip if the property is nil or already exists
 		_, exists := s.Properties[k]
-		if exists {
+		if v == nil || exists {
 			continue
 		}
 
diff --git a/pkg/asyncapi/v2/specification.go b/pkg/asyncapi/v2/specification.go
index 1aca919..83e9e79 100644
--- a/pkg/asyncapi/v2/specification.go
+++ b/pkg/asyncapi/v2/specification.go
@@ -111,6 +111,10 @@ func (s *Specification) setDependencies() error {
 // of 'subscribe' channels inside the Specification.
 func (s Specification) GetPublishSubscribeCount() (publishCount, subscribeCount uint) {
 	for _, c := range s.Channels {
+		if c == nil {
+			continue
+		}
+
 		// Check that the publish channel is present
 		if c.Publish != nil {
 			publishCount++
diff --git a/pkg/asyncapi/v3/channel.go b/pkg/asyncapi/v3/channel.go
index 2325157..f665934 100644
--- a/pkg/asyncapi/v3/channel.go
+++ b/pkg/asyncapi/v3/channel.go
@@ -164,7 +164,9 @@ func (ch *Channel) Follow() *Channel {
 func (ch Channel) GetMessage() (*Message, error) {
 	messages := ch.Follow().Messages
 	for _, k := range utils.SortedKeys(messages) {
-		return messages[k].Follow(), nil // TODO: change
+		if messages[k] != nil {
+			return messages[k].Follow(), nil // TODO: change
+		}
 	}
 	return nil, fmt.Errorf("%w: channel %q", ErrNoMessageInChannel, ch.Name)
 }
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index ec2ae77..eafcbef 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -40,6 +40,11 @@ type GoTypeImportName string
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
 func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Skip if nil
+	if s == nil {
+		return nil
+	}
+
 	// Process Properties
 	for _, p := range s.Properties {
 		if err := p.goTypeImports(imports); err != nil {
@@ -79,6 +84,11 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 
 // goTypeImports collects custom imports in the payload and headers of this message.
 func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+	// Skip if nil
+	if msg == nil {
+		return nil
+	}
+
 	if msg.Payload != nil {
 		if err := msg.Payload.goTypeImports(imports); err != nil {
 			return fmt.Errorf("payload custom import error: %w", err)
@@ -114,6 +124,10 @@ func (s Specification) CustomImports() ([]string, error) {
 	}
 
 	for _, ch := range s.Channels {
+		if ch == nil {
+			continue
+		}
+
 		for _, v := range ch.Follow().Messages {
 			if err := v.goTypeImports(importsSet); err != nil {
 				return nil, fmt.Errorf("/channels messages %w", err)
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 1c9778f..66e0f45 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -269,6 +269,10 @@ func (msg *Message) generateOneOfMetadata() error {
 
 func (msg *Message) setOneOfDependencies(spec Specification) error {
 	for _, v := range msg.OneOf {
+		if v == nil {
+			continue
+		}
+
 		// Set OneOf dependencies
 		if err := v.setDependencies(spec); err != nil {
 			return err
@@ -295,6 +299,10 @@ func (msg *Message) generateTraitsMetadata() error {
 
 func (msg *Message) setTraitsDependencies(spec Specification) error {
 	for _, t := range msg.Traits {
+		if t == nil {
+			continue
+		}
+
 		if err := t.setDependencies(spec); err != nil {
 			return err
 		}
@@ -388,7 +396,7 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
-		if !exists { // If it doesn't exist
+		if !exists || child == nil { // If it doesn't exist
 			// Create child
 			child = utils.ToPointer(NewSchema())
 			child.Name = generateFullName(locationParent.Name, v+"_Property", "", nil)
diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index 2b115ea..e70a105 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -184,6 +184,10 @@ func (op *Operation) setReference(spec Specification) error {
 
 func (op *Operation) setTraitsDependenciesAndApply(spec Specification) error {
 	for _, t := range op.Traits {
+		if t == nil {
+			continue
+		}
+
 		if err := t.setDependencies(spec); err != nil {
 			return err
 		}
@@ -227,7 +231,7 @@ func (op *Operation) IsReplyAddressLocationRequired() (bool, error) {
 
 // GetMessage will return the operation message.
 func (op Operation) GetMessage() (*Message, error) {
-	if len(op.Messages) > 0 {
+	if len(op.Messages) > 0 && op.Messages[0] != nil {
 		return op.Messages[0], nil // TODO: change
 	}
 
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 2cd3261..8c0d1d3 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -248,6 +248,10 @@ func (s *Schema) setDependencies(spec Specification) error {
 
 func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.AllOf {
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -263,6 +267,10 @@ func (s *Schema) setAllOfDependenciesAndMerge(spec Specification) error {
 
 func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.OneOf {
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -278,6 +286,10 @@ func (s *Schema) setOneOfDependenciesAndMerge(spec Specification) error {
 
 func (s *Schema) setAnyOfDependenciesAndMerge(spec Specification) error {
 	for _, v := range s.AnyOf {
+		if v == nil {
+			continue
+		}
+
 		if err := v.setDependencies(spec); err != nil {
 			return err
 		}
@@ -459,9 +471,9 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 
 	// Add properties from s2 reference to s
 	for k, v := range s2.ReferenceTo.Properties {
-		// Skip if the property already exists
+		// Skip if the property is nil or already exists
 		_, exists := s.Properties[k]
-		if exists {
+		if v == nil || exists {
 			continue
 		}
 
diff --git a/pkg/asyncapi/v3/security_scheme.go b/pkg/asyncapi/v3/security_scheme.go
index 3638c60..53df106 100644
--- a/pkg/asyncapi/v3/security_scheme.go
+++ b/pkg/asyncapi/v3/security_scheme.go
@@ -84,6 +84,10 @@ func (s *SecurityScheme) setDependencies(spec Specification) error {
 func RemoveDuplicateSecuritySchemes(securities []*SecurityScheme) []*SecurityScheme {
 	newList := make([]*SecurityScheme, 0)
 	for _, s := range securities {
+		if s == nil {
+			continue
+		}
+
 		present := false
 		for _, ps := range newList {
 			if ps.Name == s.Name {
diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index e9b3532..c3ace7c 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -180,6 +180,9 @@ func (s *Specification) setDependencies() error {
 // of 'reception' operations inside the Specification.
 func (s Specification) GetOperationCountByAction() (sendCount, receiveCount uint) {
 	for _, op := range s.Operations {
+		if op == nil {
+			continue
+		}
 		op = op.Follow()
 
 		// Check that the publish channel is present
diff --git a/pkg/asyncapi/v3/tag.go b/pkg/asyncapi/v3/tag.go
index 199e144..9d489d3 100644
--- a/pkg/asyncapi/v3/tag.go
+++ b/pkg/asyncapi/v3/tag.go
@@ -58,6 +58,10 @@ func (t *Tag) setDependencies(spec Specification) error {
 func RemoveDuplicateTags(tags []*Tag) []*Tag {
 	newList := make([]*Tag, 0)
 	for _, t := range tags {
+		if t == nil {
+			continue
+		}
+
 		present := false
 		for _, pt := range newList {
 			if pt.Name == t.Name {
-- 
2.43.0


From 922905abeb4919bfb41efee0d9793b6dfe15e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 51/77] fix: accept locations that designate the whole message
 field

---
 pkg/asyncapi/v2/message.go | 3 +++
 pkg/asyncapi/v3/message.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index 50b0707..d5c4d37 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -308,6 +308,9 @@ func (msg *Message) createTreeUntilCorrelationIDFromMessageType(t MessageField)
 func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Schema) {
 	var exists bool
 
+	// Default to the message field itself
+	correlationIDParent = child
+
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 66e0f45..37c4913 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -389,6 +389,9 @@ func (msg *Message) createTreeUntilLocationFromMessageType(t MessageField, locat
 func (msg Message) downToLocation(child *Schema, location string) (locationParent *Schema) {
 	var exists bool
 
+	// Default to the message field itself
+	locationParent = child
+
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
 		// Keep the parent
-- 
2.43.0


From 14f986e88054ffdfd44489eb3437a2ffd275d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 52/77] fix: collect the imports of recursive schemas

---
 pkg/asyncapi/v2/extensions.go | 28 +++++++++++++++-------------
 pkg/asyncapi/v3/extensions.go | 26 ++++++++++++++------------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index b28a516..1f18399 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -39,29 +39,30 @@ type GoTypeImportName string
 // goTypeImports collects custom imports in this Schema Object set by x-go-type-import key
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
-func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
-	// Skip if nil
-	if s == nil {
+func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName, seen map[*Schema]bool) error {
+	// Skip if nil or already processed, as schemas can contain themselves
+	if s == nil || seen[s] {
 		return nil
 	}
+	seen[s] = true
 
 	// Process Properties
 	for _, p := range s.Properties {
-		if err := p.goTypeImports(imports); err != nil {
+		if err := p.goTypeImports(imports, seen); err != nil {
 			return err
 		}
 	}
 
 	// Process Items
 	if s.Items != nil {
-		if err := s.Items.goTypeImports(imports); err != nil {
+		if err := s.Items.goTypeImports(imports, seen); err != nil {
 			return err
 		}
 	}
 
 	// Process AdditionalProperties
 	if s.AdditionalProperties != nil {
-		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports, seen); err != nil {
 			return err
 		}
 	}
@@ -83,20 +84,20 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 }
 
 // goTypeImports collects custom imports in the payload and headers of this message.
-func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName, seen map[*Schema]bool) error {
 	// Skip if nil
 	if msg == nil {
 		return nil
 	}
 
 	if msg.Payload != nil {
-		if err := msg.Payload.goTypeImports(imports); err != nil {
+		if err := msg.Payload.goTypeImports(imports, seen); err != nil {
 			return fmt.Errorf("payload custom import error: %w", err)
 		}
 	}
 
 	if msg.Headers != nil {
-		if err := msg.Headers.goTypeImports(imports); err != nil {
+		if err := msg.Headers.goTypeImports(imports, seen); err != nil {
 			return fmt.Errorf("headers custom import error: %w", err)
 		}
 	}
@@ -110,15 +111,16 @@ func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName)
 // Returns error when import name conflicts.
 func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
+	seen := make(map[*Schema]bool)
 
 	for _, v := range s.Components.Schemas {
-		if err := v.goTypeImports(importsSet); err != nil {
+		if err := v.goTypeImports(importsSet, seen); err != nil {
 			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
 	for _, v := range s.Components.Messages {
-		if err := v.goTypeImports(importsSet); err != nil {
+		if err := v.goTypeImports(importsSet, seen); err != nil {
 			return nil, fmt.Errorf("/components/messages %w", err)
 		}
 	}
@@ -133,7 +135,7 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 				continue
 			}
 
-			if err := op.Message.goTypeImports(importsSet); err != nil {
+			if err := op.Message.goTypeImports(importsSet, seen); err != nil {
 				return nil, fmt.Errorf("/channels messages %w", err)
 			}
 		}
@@ -141,7 +143,7 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 
 	for _, v := range s.Components.Parameters {
 		if v != nil && v.Schema != nil {
-			if err := v.Schema.goTypeImports(importsSet); err != nil {
+			if err := v.Schema.goTypeImports(importsSet, seen); err != nil {
 				return nil, fmt.Errorf("/components/parameters custom import error: %w", err)
 			}
 		}
diff --git a/pkg/asyncapi/v3/extensions.go b/pkg/asyncapi/v3/extensions.go
index eafcbef..d2d0019 100644
--- a/pkg/asyncapi/v3/extensions.go
+++ b/pkg/asyncapi/v3/extensions.go
@@ -39,29 +39,30 @@ type GoTypeImportName string
 // goTypeImports collects custom imports in this Schema Object set by x-go-type-import key
 // into the imports map.
 // Reports error when the same import path is assigned multiple import names.
-func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
-	// Skip if nil
-	if s == nil {
+func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName, seen map[*Schema]bool) error {
+	// Skip if nil or already processed, as schemas can contain themselves
+	if s == nil || seen[s] {
 		return nil
 	}
+	seen[s] = true
 
 	// Process Properties
 	for _, p := range s.Properties {
-		if err := p.goTypeImports(imports); err != nil {
+		if err := p.goTypeImports(imports, seen); err != nil {
 			return err
 		}
 	}
 
 	// Process Items
 	if s.Items != nil {
-		if err := s.Items.goTypeImports(imports); err != nil {
+		if err := s.Items.goTypeImports(imports, seen); err != nil {
 			return err
 		}
 	}
 
 	// Process AdditionalProperties
 	if s.AdditionalProperties != nil {
-		if err := s.AdditionalProperties.goTypeImports(imports); err != nil {
+		if err := s.AdditionalProperties.goTypeImports(imports, seen); err != nil {
 			return err
 		}
 	}
@@ -83,20 +84,20 @@ func (s *Schema) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) er
 }
 
 // goTypeImports collects custom imports in the payload and headers of this message.
-func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName) error {
+func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName, seen map[*Schema]bool) error {
 	// Skip if nil
 	if msg == nil {
 		return nil
 	}
 
 	if msg.Payload != nil {
-		if err := msg.Payload.goTypeImports(imports); err != nil {
+		if err := msg.Payload.goTypeImports(imports, seen); err != nil {
 			return fmt.Errorf("payload custom import error: %w", err)
 		}
 	}
 
 	if msg.Headers != nil {
-		if err := msg.Headers.goTypeImports(imports); err != nil {
+		if err := msg.Headers.goTypeImports(imports, seen); err != nil {
 			return fmt.Errorf("headers custom import error: %w", err)
 		}
 	}
@@ -110,15 +111,16 @@ func (msg *Message) goTypeImports(imports map[GoTypeImportPath]GoTypeImportName)
 // Returns error when import name conflicts.
 func (s Specification) CustomImports() ([]string, error) {
 	importsSet := make(map[GoTypeImportPath]GoTypeImportName)
+	seen := make(map[*Schema]bool)
 
 	for _, v := range s.Components.Schemas {
-		if err := v.goTypeImports(importsSet); err != nil {
+		if err := v.goTypeImports(importsSet, seen); err != nil {
 			return nil, fmt.Errorf("/components/schemas custom import error: %w", err)
 		}
 	}
 
 	for _, v := range s.Components.Messages {
-		if err := v.goTypeImports(importsSet); err != nil {
+		if err := v.goTypeImports(importsSet, seen); err != nil {
 			return nil, fmt.Errorf("/components/messages %w", err)
 		}
 	}
@@ -129,7 +131,7 @@ func (s Specification) CustomImports() ([]string, error) {
 		}
 
 		for _, v := range ch.Follow().Messages {
-			if err := v.goTypeImports(importsSet); err != nil {
+			if err := v.goTypeImports(importsSet, seen); err != nil {
 				return nil, fmt.Errorf("/channels messages %w", err)
 			}
 		}
-- 
2.43.0


From b71de0ccfafd9d5363fac620c66f11f52cb95b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 53/77] fix: do not define again the objects in arrays of
 merged schemas

---
 pkg/asyncapi/v2/schema.go | 31 +++++++++++++++++++++----------
 pkg/asyncapi/v3/schema.go | 31 +++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 68ab1f2..bea615e 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -490,16 +490,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.reuse()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -508,6 +499,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// reuse returns a schema that stands for this one in another place, without
+// defining again the objects that it defines.
+func (s *Schema) reuse() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.reuse()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 8c0d1d3..1a672d9 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -478,16 +478,7 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 		}
 
 		// Add the property
-		if v.Type == "object" {
-			s.Properties[k] = &Schema{
-				Validations: asyncapi.Validations[Schema]{
-					IsRequired: v.IsRequired,
-				},
-				ReferenceTo: v,
-			}
-		} else {
-			s.Properties[k] = v
-		}
+		s.Properties[k] = v.reuse()
 
 		// Add to required if it is required
 		if v.IsRequired {
@@ -496,6 +487,26 @@ func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	}
 }
 
+// reuse returns a schema that stands for this one in another place, without
+// defining again the objects that it defines.
+func (s *Schema) reuse() *Schema {
+	switch {
+	case s.Type == SchemaTypeIsObject.String():
+		return &Schema{
+			Validations: asyncapi.Validations[Schema]{
+				IsRequired: s.IsRequired,
+			},
+			ReferenceTo: s,
+		}
+	case s.Type == SchemaTypeIsArray.String() && s.Items != nil:
+		array := *s
+		array.Items = s.Items.reuse()
+		return &array
+	default:
+		return s
+	}
+}
+
 // Follow returns referenced schema if specified or the actual schema.
 func (s *Schema) Follow() *Schema {
 	if s.ReferenceTo != nil {
-- 
2.43.0


From d6f2982f4eb0a877a3c07d668bc1feab1a3e6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 54/77] fix: refuse references from a channel into itself

---
 pkg/asyncapi/v3/specification.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index c3ace7c..56a5640 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -893,17 +893,26 @@ func (s Specification) lookupChannels(ref, name string, path []string) (any, err
 func (s Specification) finalChannel(ref string, ch *Channel) (*Channel, error) {
 	seen := make(map[*Channel]bool)
 	for spec := &s; ch != nil && ch.Reference != ""; {
-		// Channels are not found in messages, and there should be no cycle
-		if seen[ch] || strings.Contains(ch.Reference, "/messages/") {
+		// There should be no cycle
+		if seen[ch] {
 			return nil, fmt.Errorf("%w: channel reference %q is invalid", ErrInvalidReference, ch.Reference)
 		}
 		seen[ch] = true
 
-		obj, next, err := spec.lookup(ch.Reference)
+		next, path, err := spec.getDependencyBasedOnRef(ch.Reference)
 		if err != nil {
 			return nil, err
 		}
-		ch, _ = obj.(*Channel)
+
+		// Channels are only found directly in channels
+		switch parts := strings.Split(strings.TrimPrefix(path, "/"), "/"); {
+		case len(parts) == 2 && parts[0] == "channels": //nolint:mnd
+			ch = next.Channels[parts[1]]
+		case len(parts) == 3 && parts[0] == "components" && parts[1] == "channels": //nolint:mnd
+			ch = next.Components.Channels[parts[2]]
+		default:
+			ch = nil
+		}
 		spec = next
 	}
 
-- 
2.43.0


From a509b38706dbef727f29eff8fa26a9ed718cab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 55/77] fix: do not crash on empty channels and operations

---
 pkg/codegen/generators/v2/controller.go | 5 +++++
 pkg/codegen/generators/v2/subscriber.go | 5 +++++
 pkg/codegen/generators/v3/common.go     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/pkg/codegen/generators/v2/controller.go b/pkg/codegen/generators/v2/controller.go
index 77d4862..62c62c2 100644
--- a/pkg/codegen/generators/v2/controller.go
+++ b/pkg/codegen/generators/v2/controller.go
@@ -33,6 +33,11 @@ func NewControllerGenerator(side generators.Side, spec asyncapi.Specification) C
 	gen.SubscribeChannels = make(map[string]*asyncapi.Channel)
 	gen.PublishChannels = make(map[string]*asyncapi.Channel)
 	for name, channel := range spec.Channels {
+		// Ignore empty channels
+		if channel == nil {
+			continue
+		}
+
 		// Add channel to subscribe channels based on channel content and side
 		if isSubscribeChannel(side, channel) {
 			gen.SubscribeChannels[name] = channel
diff --git a/pkg/codegen/generators/v2/subscriber.go b/pkg/codegen/generators/v2/subscriber.go
index aaf95e5..b90c081 100644
--- a/pkg/codegen/generators/v2/subscriber.go
+++ b/pkg/codegen/generators/v2/subscriber.go
@@ -30,6 +30,11 @@ func NewSubscriberGenerator(side generators.Side, spec asyncapi.Specification) S
 	// Get channels based on publish/subscribe
 	gen.Channels = make(map[string]*asyncapi.Channel)
 	for k, v := range spec.Channels {
+		// Ignore empty channels
+		if v == nil {
+			continue
+		}
+
 		// Channels are reverse on application side
 		if v.Publish != nil && side == generators.SideIsApplication {
 			gen.Channels[k] = v
diff --git a/pkg/codegen/generators/v3/common.go b/pkg/codegen/generators/v3/common.go
index a330414..3984b12 100644
--- a/pkg/codegen/generators/v3/common.go
+++ b/pkg/codegen/generators/v3/common.go
@@ -31,6 +31,11 @@ func NewActionOperations(side generators.Side, spec asyncapi.Specification) Acti
 	ao.Receive = make(map[string]*asyncapi.Operation)
 	ao.Send = make(map[string]*asyncapi.Operation)
 	for name, op := range spec.Operations {
+		// Ignore empty operations
+		if op == nil {
+			continue
+		}
+
 		// Be sure this is the final operation, not a proxy
 		op = op.Follow()
 
-- 
2.43.0


From b71b97121a184bca0dad0bf05c3146dd5b749255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 56/77] fix: resolve references to the servers of a document

---
 pkg/asyncapi/v3/specification.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/asyncapi/v3/specification.go b/pkg/asyncapi/v3/specification.go
index 56a5640..f576255 100644
--- a/pkg/asyncapi/v3/specification.go
+++ b/pkg/asyncapi/v3/specification.go
@@ -809,6 +809,8 @@ func (s Specification) lookup(ref string) (any, *Specification, error) {
 		obj, err = usedSpec.lookupComponents(ref, refPath[1], refPath[2], refPath[3:])
 	case refPath[0] == "channels" && len(refPath) > 1:
 		obj, err = usedSpec.lookupChannels(ref, refPath[1], refPath[2:])
+	case refPath[0] == "servers" && len(refPath) == 2: //nolint:mnd
+		obj = usedSpec.Servers[refPath[1]]
 	default:
 		err = fmt.Errorf("%w: reference %q is not supported", ErrInvalidReference, ref)
 	}
-- 
2.43.0


From 1af2358861269086a23bb40bdc3a2f775e95c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 57/77] fix: keep the type of scalars and arrays when merging
 schemas

---
 pkg/asyncapi/v2/schema.go | 4 ++++
 pkg/asyncapi/v3/schema.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index bea615e..1f50c68 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -354,6 +354,10 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 		return nil
 	}
 
+	// Keep scalars and arrays as they are: only objects are made of other schemas
+	if t := s.Follow().Type; t != "" && t != SchemaTypeIsObject.String() {
+		return nil
+	}
 	s.Type = SchemaTypeIsObject.String()
 
 	// Remove reference if merging
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 1a672d9..22a3e18 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -342,6 +342,10 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 		return nil
 	}
 
+	// Keep scalars and arrays as they are: only objects are made of other schemas
+	if t := s.Follow().Type; t != "" && t != SchemaTypeIsObject.String() {
+		return nil
+	}
 	s.Type = SchemaTypeIsObject.String()
 
 	// Remove reference if merging
-- 
2.43.0


From 3d7c2f3140700f5ca80627743cad6dd06e0736b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 58/77] fix: merge the payload of a message trait into the
 payload

---
 pkg/asyncapi/v3/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 37c4913..a6f2bc7 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -631,7 +631,7 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 	}
 
 	// Merge payload
-	return msg.Headers.MergeWith(spec, *payload)
+	return msg.Payload.MergeWith(spec, *payload)
 }
 
 // HaveCorrelationID check that the message have a correlation ID.
-- 
2.43.0


From 45e89a3032e9f130508c2142df37900a79d975c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 59/77] fix: do not share the schemas of a message trait
 between messages

---
 pkg/asyncapi/v3/message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index a6f2bc7..1df784b 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -602,8 +602,8 @@ func (msg *Message) mergeHeaders(spec Specification, headers *Schema) error {
 
 	// Check if message headers are nil, then create them
 	if msg.Headers == nil {
-		newHeaders := utils.ToValue(headers.Follow())
-		msg.Headers = &newHeaders
+		newHeaders := deepcopy.Copy(headers.Follow()).(*Schema)
+		msg.Headers = newHeaders
 		if err := newHeaders.generateMetadata(msg.Name, "Headers", nil, false); err != nil {
 			return err
 		}
@@ -622,8 +622,8 @@ func (msg *Message) mergePayload(spec Specification, payload *Schema) error {
 
 	// Check if message payload is nil, then create them
 	if msg.Payload == nil {
-		newPayload := utils.ToValue(payload.Follow())
-		msg.Payload = &newPayload
+		newPayload := deepcopy.Copy(payload.Follow()).(*Schema)
+		msg.Payload = newPayload
 		if err := newPayload.generateMetadata(msg.Name, "Payload", nil, false); err != nil {
 			return err
 		}
-- 
2.43.0


From 85481e3c3aa6368bd0081c5cd7cc7a405c339cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 60/77] fix: apply the bindings of message traits

---
 pkg/asyncapi/v3/message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index 1df784b..a796cfc 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -588,6 +588,12 @@ func (msg *Message) ApplyTrait(mt *MessageTrait, spec Specification) error {
 		msg.ExternalDocs = &extDoc
 	}
 
+	// Override bindings if not set
+	if msg.Bindings == nil && mt.Bindings != nil {
+		bindings := *mt.Bindings
+		msg.Bindings = &bindings
+	}
+
 	// Merge examples
 	msg.Examples = append(msg.Examples, mt.Examples...)
 
-- 
2.43.0


From a121825093eea872b4e2bd7811c1d17cda7e5ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 61/77] fix: read the description of v3 operations

---
 pkg/asyncapi/v3/operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/operation.go b/pkg/asyncapi/v3/operation.go
index e70a105..5a19d45 100644
--- a/pkg/asyncapi/v3/operation.go
+++ b/pkg/asyncapi/v3/operation.go
@@ -36,7 +36,7 @@ type Operation struct {
 	Channel      *Channel               `json:"channel"` // Reference only
 	Title        string                 `json:"title"`
 	Summary      string                 `json:"summary"`
-	Description  string                 `json:"string"`
+	Description  string                 `json:"description"`
 	Security     []*SecurityScheme      `json:"security"`
 	Tags         []*Tag                 `json:"tags"`
 	ExternalDocs *ExternalDocumentation `json:"externalDocs"`
-- 
2.43.0


From 4670d5e93d6c1d36ffb04590caca78a0b4321000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:10 +0000
Subject: [PATCH 62/77] fix: read the client credentials flow from its key

---
 pkg/asyncapi/v3/security_scheme.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/security_scheme.go b/pkg/asyncapi/v3/security_scheme.go
index 53df106..7a31a71 100644
--- a/pkg/asyncapi/v3/security_scheme.go
+++ b/pkg/asyncapi/v3/security_scheme.go
@@ -22,7 +22,7 @@ type OAuthFlows struct {
 
 	Implicit          OAuthFlow `json:"implicit"`
 	Password          OAuthFlow `json:"password"`
-	ClientCredentials OAuthFlow `json:"clientCredential"`
+	ClientCredentials OAuthFlow `json:"clientCredentials"`
 	AuthorizationCode OAuthFlow `json:"authorizationCode"`
 
 	// --- Non AsyncAPI fields -------------------------------------------------
-- 
2.43.0


From 980b7479edbb5081d54b4ce8c4b4300a7753a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 63/77] fix: read multipleOf as the number it is

---
 pkg/asyncapi/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index b691b5c..76a0f6c 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -4,7 +4,7 @@ package asyncapi
 // These fields are in common for v2 and v3.
 type Validations[T any] struct {
 	Required         []string `json:"required"`
-	MultipleOf       []string `json:"multipleOf"`
+	MultipleOf       float64  `json:"multipleOf"`
 	Maximum          float64  `json:"maximum"`
 	ExclusiveMaximum float64  `json:"exclusiveMaximum"`
 	Minimum          float64  `json:"minimum"`
@@ -36,7 +36,7 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.Required) > 0 {
 		v.Required = newV.Required
 	}
-	if len(newV.MultipleOf) > 0 {
+	if newV.MultipleOf != 0 {
 		v.MultipleOf = newV.MultipleOf
 	}
 	if newV.Maximum != 0 {
-- 
2.43.0


From 34d86b21652afd26ff10a92a1610d81cc4ca4698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 64/77] fix: read the list of security schemes of a server

---
 pkg/asyncapi/v3/server.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v3/server.go b/pkg/asyncapi/v3/server.go
index c2f53b0..a4b6b21 100644
--- a/pkg/asyncapi/v3/server.go
+++ b/pkg/asyncapi/v3/server.go
@@ -14,7 +14,7 @@ type Server struct {
 	Title           string                     `json:"title"`
 	Summary         string                     `json:"summary"`
 	Variables       map[string]*ServerVariable `json:"variables"`
-	Security        *SecurityScheme            `json:"security"`
+	Security        []*SecurityScheme          `json:"security"`
 	Tags            []*Tag                     `json:"tags"`
 	ExternalDocs    *ExternalDocumentation     `json:"externalDocs"`
 	Bindings        *ServerBindings            `json:"bindings"`
@@ -42,7 +42,9 @@ func (srv *Server) generateMetadata(parentName, name string) {
 	}
 
 	// Generate security metadata
-	srv.Security.generateMetadata(srv.Name, "", nil)
+	for i, s := range srv.Security {
+		s.generateMetadata(srv.Name, "", &i)
+	}
 
 	// Generate tags metadata
 	for i, t := range srv.Tags {
@@ -76,8 +78,10 @@ func (srv *Server) setDependencies(spec Specification) error {
 	}
 
 	// Set security dependencies
-	if err := srv.Security.setDependencies(spec); err != nil {
-		return err
+	for _, s := range srv.Security {
+		if err := s.setDependencies(spec); err != nil {
+			return err
+		}
 	}
 
 	// Set tags dependencies
-- 
2.43.0


From afb98eac51aa9c9cb2e197dffc9412d75c10ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:18 +0000
Subject: [PATCH 65/77] fix: accept message examples with any payload

---
 pkg/asyncapi/v3/message_example.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/asyncapi/v3/message_example.go b/pkg/asyncapi/v3/message_example.go
index b6b6458..df56d3f 100644
--- a/pkg/asyncapi/v3/message_example.go
+++ b/pkg/asyncapi/v3/message_example.go
@@ -7,7 +7,7 @@ type MessageExample struct {
 	// --- AsyncAPI fields -----------------------------------------------------
 
 	Headers   map[string]any `json:"headers"`
-	Payload   map[string]any `json:"payload"`
+	Payload   any            `json:"payload"`
 	Name      string         `json:"name"`
 	Summary   string         `json:"summary"`
 	Reference string         `json:"$ref"`
-- 
2.43.0


From f74cf11537cb9bb38073843eb20e7a703164e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 66/77] fix: read contains, additionalItems and propertyNames
 as schemas

---
 pkg/asyncapi/v3/schema.go | 45 +++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index 22a3e18..c3d85d4 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -38,10 +38,10 @@ type Schema struct {
 	Properties           map[string]*Schema `json:"properties"`
 	PatternProperties    map[string]*Schema `json:"patternProperties"`
 	AdditionalProperties *Schema            `json:"additionalProperties"`
-	AdditionalItems      []*Schema          `json:"additionalItems"`
+	AdditionalItems      *Schema            `json:"additionalItems"`
 	Items                *Schema            `json:"items"`
-	PropertyNames        []string           `json:"propertyNames"`
-	Contains             []*Schema          `json:"contains"`
+	PropertyNames        *Schema            `json:"propertyNames"`
+	Contains             *Schema            `json:"contains"`
 	AllOf                []*Schema          `json:"allOf"`
 	AnyOf                []*Schema          `json:"anyOf"`
 	OneOf                []*Schema          `json:"oneOf"`
@@ -116,10 +116,8 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 	}
 
 	// Generate Additional Items metadata
-	for i, item := range s.AdditionalItems {
-		if err := item.generateMetadata(s.Name, "Additional_Item", &i, false); err != nil {
-			return err
-		}
+	if err := s.AdditionalItems.generateMetadata(s.Name, "Additional_Items", nil, false); err != nil {
+		return err
 	}
 
 	// Generate Items metadata
@@ -128,11 +126,14 @@ func (s *Schema) generateMetadata(parentName, name string, number *int, isRequir
 		return err
 	}
 
+	// Generate Property Names metadata
+	if err := s.PropertyNames.generateMetadata(s.Name, "Property_Names", nil, false); err != nil {
+		return err
+	}
+
 	// Generate Contains metadata
-	for i, item := range s.Contains {
-		if err := item.generateMetadata("", s.Name+"_Content", &i, false); err != nil {
-			return err
-		}
+	if err := s.Contains.generateMetadata("", s.Name+"_Content", nil, false); err != nil {
+		return err
 	}
 
 	// Generate AnyOf metadata
@@ -205,10 +206,8 @@ func (s *Schema) setDependencies(spec Specification) error {
 	}
 
 	// Set Additional Items dependencies
-	for _, item := range s.AdditionalItems {
-		if err := item.setDependencies(spec); err != nil {
-			return err
-		}
+	if err := s.AdditionalItems.setDependencies(spec); err != nil {
+		return err
 	}
 
 	// Set Items dependencies
@@ -216,11 +215,14 @@ func (s *Schema) setDependencies(spec Specification) error {
 		return err
 	}
 
+	// Set Property Names dependencies
+	if err := s.PropertyNames.setDependencies(spec); err != nil {
+		return err
+	}
+
 	// Set Contains dependencies
-	for _, item := range s.Contains {
-		if err := item.setDependencies(spec); err != nil {
-			return err
-		}
+	if err := s.Contains.setDependencies(spec); err != nil {
+		return err
 	}
 
 	// Set AnyOf dependencies
@@ -544,8 +546,9 @@ func (s *Schema) deepCopy(copies map[*Schema]*Schema) *Schema {
 	c.AdditionalProperties = s.AdditionalProperties.deepCopy(copies)
 	c.Items = s.Items.deepCopy(copies)
 	c.Not = s.Not.deepCopy(copies)
-	c.AdditionalItems = deepCopySchemaSlice(s.AdditionalItems, copies)
-	c.Contains = deepCopySchemaSlice(s.Contains, copies)
+	c.AdditionalItems = s.AdditionalItems.deepCopy(copies)
+	c.PropertyNames = s.PropertyNames.deepCopy(copies)
+	c.Contains = s.Contains.deepCopy(copies)
 	c.AllOf = deepCopySchemaSlice(s.AllOf, copies)
 	c.AnyOf = deepCopySchemaSlice(s.AnyOf, copies)
 	c.OneOf = deepCopySchemaSlice(s.OneOf, copies)
-- 
2.43.0


From 5eaf2836c3dfcf977ac452c22fd58f89bd6494be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 67/77] fix: do not write validation bounds with exponents

---
 pkg/codegen/generators/helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 7617e01..28600e4 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -2,6 +2,7 @@ package generators
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
@@ -10,7 +11,8 @@ import (
 
 func appendDirectiveIfDefined(directives []string, tagName string, value float64) []string {
 	if value != 0 {
-		return append(directives, fmt.Sprintf("%s=%g", tagName, value))
+		// No exponent, as bounds on lengths are read as integers
+		return append(directives, tagName+"="+strconv.FormatFloat(value, 'f', -1, 64))
 	}
 	return directives
 }
-- 
2.43.0


From a20c2dd225e1f9e3f27f1fc5214fe5e473327bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 68/77] fix: escape enum and const values in validation tags

---
 pkg/codegen/generators/helpers.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/codegen/generators/helpers.go b/pkg/codegen/generators/helpers.go
index 28600e4..8b35aa7 100644
--- a/pkg/codegen/generators/helpers.go
+++ b/pkg/codegen/generators/helpers.go
@@ -61,7 +61,7 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 	if schema.Const != nil {
 		if cStr, ok := schema.Const.(string); ok {
 			// Only generate enum if the elements is a string, otherwise this is unsupported
-			directives = append(directives, fmt.Sprintf("eq=%s", cStr))
+			directives = append(directives, fmt.Sprintf("eq=%s", escapeParameter(cStr)))
 		}
 	}
 
@@ -70,12 +70,20 @@ func GenerateValidateTags[T any](schema asyncapi.Validations[T], isPointer bool,
 			directives = append([]string{"omitempty"}, directives...)
 		}
 
-		return fmt.Sprintf(" validate:\"%s\"", strings.Join(directives, ","))
+		// The tag is in a raw string, where there can't be any backquote
+		tag := strings.ReplaceAll(strconv.Quote(strings.Join(directives, ",")), "`", `\x60`)
+		return " validate:" + tag
 	} else {
 		return ""
 	}
 }
 
+// escapeParameter escapes the characters that have a meaning for the validator in
+// the parameter of a directive.
+func escapeParameter(s string) string {
+	return strings.NewReplacer(",", "0x2C", "|", "0x7C").Replace(s)
+}
+
 // singleQuote prepends and appends a single quote to the provided string.
 func singleQuote(s string) string {
 	return "'" + s + "'"
@@ -85,13 +93,14 @@ func appendEnumDirectives[T any](schema asyncapi.Validations[T], directives []st
 	if len(schema.Enum) > 0 {
 		var enumsStr []string
 		for _, e := range schema.Enum {
-			if eStr, ok := e.(string); ok {
+			// The validator has no way to escape single quotes in values
+			if eStr, ok := e.(string); ok && !strings.Contains(eStr, "'") {
 				// single quotes are mandatory in order to handle values with spaces
-				enumsStr = append(enumsStr, singleQuote(eStr))
+				enumsStr = append(enumsStr, singleQuote(escapeParameter(eStr)))
 			}
 		}
 
-		// Only generate enum if all elements are string, otherwise this is unsupported
+		// Only generate enum if all elements are (supported) strings, otherwise this is unsupported
 		if len(schema.Enum) == len(enumsStr) {
 			directives = append(directives, fmt.Sprintf("oneof=%s", strings.Join(enumsStr, " ")))
 		}
-- 
2.43.0


From 444d9c14baa83240cac9e3e981fdc3b3e26d26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 69/77] fix: do not make a property required because its
 reference is

---
 pkg/asyncapi/schema.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/asyncapi/schema.go b/pkg/asyncapi/schema.go
index 76a0f6c..f82ed00 100644
--- a/pkg/asyncapi/schema.go
+++ b/pkg/asyncapi/schema.go
@@ -90,9 +90,6 @@ func (v *Validations[T]) Merge(newV Validations[T]) {
 	if len(newV.OneOf) > 0 {
 		v.OneOf = newV.OneOf
 	}
-	if newV.IsRequired {
-		v.IsRequired = newV.IsRequired
-	}
 	if newV.ShouldOmitEmpty != nil {
 		v.ShouldOmitEmpty = newV.ShouldOmitEmpty
 	}
-- 
2.43.0


From 86d2b9df8cdd7cd61d045a276dc7a37cfb89c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 70/77] fix: tag fields as required when another schema of
 their parent requires them

---
 pkg/codegen/generators/v2/templates/helpers.go            | 8 ++++++++
 pkg/codegen/generators/v2/templates/message.tmpl          | 6 +++---
 .../generators/v2/templates/schema_definition.tmpl        | 2 +-
 pkg/codegen/generators/v3/templates/helpers.go            | 8 ++++++++
 pkg/codegen/generators/v3/templates/message.tmpl          | 6 +++---
 .../generators/v3/templates/schema_definition.tmpl        | 2 +-
 6 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index eeb8757..9ca62f2 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -152,6 +152,13 @@ func isFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema
 	return (forcePointers || !(IsRequired(parent, field) || schema.IsRequired)) && schema.Type != "array"
 }
 
+// fieldSchema returns the schema of a field of the given parent, which can require
+// it even if the schema of the field doesn't know about it.
+func fieldSchema(parent asyncapi.Schema, field string, schema asyncapi.Schema) asyncapi.Schema {
+	schema.IsRequired = schema.IsRequired || IsRequired(parent, field)
+	return schema
+}
+
 // SetForcePointerOnFields sets if the generation of all fields as pointers,
 // except for arrays, is forced.
 func SetForcePointerOnFields(force bool) {
@@ -171,6 +178,7 @@ func HelpersFunctions() template.FuncMap {
 		"getChildrenObjectSchemas":       GetChildrenObjectSchemas,
 		"channelToMessage":               ChannelToMessage,
 		"isRequired":                     IsRequired,
+		"fieldSchema":                    fieldSchema,
 		"isFieldPointer":                 isFieldPointer,
 		"isLocationPointer":              isLocationPointer,
 		"generateChannelPath":            GenerateChannelPath,
diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index 461c66a..e8a6dc8 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -113,7 +113,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
-            {{- $headers := .Headers -}}
+            {{- $headers := .Headers.Follow -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- $isPointer := isFieldPointer $headers $key $value }}
@@ -200,13 +200,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
-        {{- $headers := .Headers -}}
+        {{- $headers := .Headers.Follow -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
             {{- $header := $value.Follow }}
-            {{- if $value.IsRequired }}
+            {{- if or $value.IsRequired (isRequired $headers $key) }}
                 {{- $dereferenceOp := "" -}}
                 {{- if isFieldPointer $headers $key $value -}}
                     {{- $dereferenceOp = "*" }}
diff --git a/pkg/codegen/generators/v2/templates/schema_definition.tmpl b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
index eab7057..13a2a5d 100644
--- a/pkg/codegen/generators/v2/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v2/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags (fieldSchema $ $key $value).Validations $key}}{{generateValidateTags (fieldSchema $ $key $value).Validations (isFieldPointer $ $key $value) $value.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 26534bb..6473c57 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -138,6 +138,13 @@ func isFieldPointer(parent asyncapi.Schema, field string, schema asyncapi.Schema
 	return (forcePointers || !(IsRequired(parent, field) || schema.IsRequired)) && schema.Type != "array"
 }
 
+// fieldSchema returns the schema of a field of the given parent, which can require
+// it even if the schema of the field doesn't know about it.
+func fieldSchema(parent asyncapi.Schema, field string, schema asyncapi.Schema) asyncapi.Schema {
+	schema.IsRequired = schema.IsRequired || IsRequired(parent, field)
+	return schema
+}
+
 // SetForcePointerOnFields sets if the generation of all fields as pointers,
 // except for arrays, is forced.
 func SetForcePointerOnFields(force bool) {
@@ -159,6 +166,7 @@ func HelpersFunctions() template.FuncMap {
 		"opToMsgTypeName":                OpToMsgTypeName,
 		"opToChannelTypeName":            OpToChannelTypeName,
 		"isRequired":                     IsRequired,
+		"fieldSchema":                    fieldSchema,
 		"isFieldPointer":                 isFieldPointer,
 		"isLocationPointer":              isLocationPointer,
 		"generateChannelAddr":            GenerateChannelAddr,
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index 4c3951b..d997647 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -122,7 +122,7 @@ func brokerMessageTo{{namify .Name}}(bMsg extensions.BrokerMessage) ({{namify .N
             {{- $headerProperties := .Headers.Follow.Properties}}
 
             {{- /* For each header */}}
-            {{- $headers := .Headers -}}
+            {{- $headers := .Headers.Follow -}}
             {{- range  $key, $value := $headerProperties}}
             case k == "{{$key}}": // Retrieving {{namify $key}} header
                 {{- $isPointer := isFieldPointer $headers $key $value }}
@@ -210,13 +210,13 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
 
         // Add each headers to broker message
         headers := make(map[string][]byte, {{ len $headerProperties }})
-        {{- $headers := .Headers -}}
+        {{- $headers := .Headers.Follow -}}
         {{/* For each header */ -}}
         {{- range  $key, $value := $headerProperties }}
 
             // Adding {{ namify $key}} header
             {{- $header := $value.Follow }}
-            {{- if $value.IsRequired }}
+            {{- if or $value.IsRequired (isRequired $headers $key) }}
                 {{- $dereferenceOp := "" -}}
                 {{- if isFieldPointer $headers $key $value -}}
                     {{- $dereferenceOp = "*" }}
diff --git a/pkg/codegen/generators/v3/templates/schema_definition.tmpl b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
index eab7057..13a2a5d 100644
--- a/pkg/codegen/generators/v3/templates/schema_definition.tmpl
+++ b/pkg/codegen/generators/v3/templates/schema_definition.tmpl
@@ -15,7 +15,7 @@ type {{ namify .Name }} struct {
     {{else if and $value.ReferenceTo $value.ReferenceTo.Description}}
     // Description: {{multiLineComment $value.ReferenceTo.Description}}
     {{end -}}
-    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags $value.Validations $key}}{{generateValidateTags $value.Validations (isFieldPointer $ $key $value) $value.Type }}`
+    {{namify $key}} {{if isFieldPointer $ $key $value }}*{{end}}{{template "schema-name" $value}} `{{generateJSONTags (fieldSchema $ $key $value).Validations $key}}{{generateValidateTags (fieldSchema $ $key $value).Validations (isFieldPointer $ $key $value) $value.Type }}`
     {{end -}}
 
     {{- if .AdditionalProperties}}
-- 
2.43.0


From dac49761eb5c7f8ababa7c7a91f170d3f94e1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:31 +0000
Subject: [PATCH 71/77] fix: a correlation ID or reply address below a
 referenced schema is put in that schema

The missing properties of the location were created on the reference itself
instead of the schema it refers to, so the generated code didn't compile.
---
 pkg/asyncapi/v2/message.go | 4 ++--
 pkg/asyncapi/v3/message.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/asyncapi/v2/message.go b/pkg/asyncapi/v2/message.go
index d5c4d37..b7f8f96 100644
--- a/pkg/asyncapi/v2/message.go
+++ b/pkg/asyncapi/v2/message.go
@@ -313,8 +313,8 @@ func (msg Message) downToCorrelationID(child *Schema) (correlationIDParent *Sche
 
 	path := strings.Split(msg.CorrelationID.Location, "/")
 	for i, v := range path[1:] {
-		// Keep the parent
-		correlationIDParent = child
+		// Keep the parent, which can be a reference
+		correlationIDParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = correlationIDParent.Properties[v]
diff --git a/pkg/asyncapi/v3/message.go b/pkg/asyncapi/v3/message.go
index a796cfc..d593da4 100644
--- a/pkg/asyncapi/v3/message.go
+++ b/pkg/asyncapi/v3/message.go
@@ -394,8 +394,8 @@ func (msg Message) downToLocation(child *Schema, location string) (locationParen
 
 	path := strings.Split(location, "/")
 	for i, v := range path[1:] {
-		// Keep the parent
-		locationParent = child
+		// Keep the parent, which can be a reference
+		locationParent = child.Follow()
 
 		// Get the corresponding child
 		child, exists = locationParent.Properties[v]
-- 
2.43.0


From e8750ddd750470c5bc091c515b42c87774f36f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:28 +0000
Subject: [PATCH 72/77] fix: declare the JSON of each required header in its
 own scope

Two required headers that are neither strings nor dates redeclared the same
variable: what was generated did not compile.
---
 pkg/codegen/generators/v2/templates/message.tmpl | 6 +++---
 pkg/codegen/generators/v3/templates/message.tmpl | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/message.tmpl b/pkg/codegen/generators/v2/templates/message.tmpl
index e8a6dc8..b971d15 100644
--- a/pkg/codegen/generators/v2/templates/message.tmpl
+++ b/pkg/codegen/generators/v2/templates/message.tmpl
@@ -223,11 +223,11 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                 {{- else if eq $header.Type "string" }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- else }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
+                    if h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}}); err != nil {
                         return extensions.BrokerMessage{}, err
+                    } else {
+                        headers["{{$key}}"] = h
                     }
-                    headers["{{$key}}"] = h
                 {{- end }}
             {{- else}}
                 if msg.Headers.{{namify $key}} != nil {
diff --git a/pkg/codegen/generators/v3/templates/message.tmpl b/pkg/codegen/generators/v3/templates/message.tmpl
index d997647..0dce558 100644
--- a/pkg/codegen/generators/v3/templates/message.tmpl
+++ b/pkg/codegen/generators/v3/templates/message.tmpl
@@ -233,11 +233,11 @@ func (msg {{namify .Name}}) toBrokerMessage() (extensions.BrokerMessage, error)
                 {{- else if eq $header.Type "string" }}
                     headers["{{$key}}"] = []byte({{ $dereferenceOp }}msg.Headers.{{namify $key}})
                 {{- else }}
-                    h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}})
-                    if err != nil {
+                    if h, err := json.Marshal({{ $dereferenceOp }}msg.Headers.{{ namify $key}}); err != nil {
                         return extensions.BrokerMessage{}, err
+                    } else {
+                        headers["{{$key}}"] = h
                     }
-                    headers["{{$key}}"] = h
                 {{- end }}
             {{- else}}
                 if msg.Headers.{{namify $key}} != nil {
-- 
2.43.0


From 624edbbe53e87d379fda4f7e06fa7d02aeea6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:45 +0000
Subject: [PATCH 73/77] fix: keep the additional properties of the parts of a
 merged schema

---
 pkg/asyncapi/v2/schema.go | 15 +++++++++++++++
 pkg/asyncapi/v3/schema.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/pkg/asyncapi/v2/schema.go b/pkg/asyncapi/v2/schema.go
index 1f50c68..1c5d930 100644
--- a/pkg/asyncapi/v2/schema.go
+++ b/pkg/asyncapi/v2/schema.go
@@ -374,6 +374,7 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	s.mergeWithSchemaAnyOf(s2)
 	s.mergeWithSchemaOneOf(s2)
 	s.mergeWithSchemaProperties(s2)
+	s.mergeWithSchemaAdditionalProperties(s2)
 
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
@@ -479,6 +480,20 @@ func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
 	s.mergeWithSchemaReferenceProperties(s2)
 }
 
+func (s *Schema) mergeWithSchemaAdditionalProperties(s2 Schema) {
+	// Keep the additional properties of the schema if there are some
+	if s.AdditionalProperties != nil {
+		return
+	}
+
+	// Take additional properties from s2, or from s2 reference
+	if s2.AdditionalProperties != nil {
+		s.AdditionalProperties = s2.AdditionalProperties
+	} else if s2.ReferenceTo != nil && s2.ReferenceTo.AdditionalProperties != nil {
+		s.AdditionalProperties = s2.ReferenceTo.AdditionalProperties.reuse()
+	}
+}
+
 func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	// Return if there are no properties to merge
 	if s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil {
diff --git a/pkg/asyncapi/v3/schema.go b/pkg/asyncapi/v3/schema.go
index c3d85d4..790a787 100644
--- a/pkg/asyncapi/v3/schema.go
+++ b/pkg/asyncapi/v3/schema.go
@@ -364,6 +364,7 @@ func (s *Schema) MergeWith(spec Specification, s2 Schema) error {
 	s.mergeWithSchemaAnyOf(s2)
 	s.mergeWithSchemaOneOf(s2)
 	s.mergeWithSchemaProperties(s2)
+	s.mergeWithSchemaAdditionalProperties(s2)
 
 	// Merge requirements
 	s.Required = append(s.Required, s2.Required...)
@@ -469,6 +470,20 @@ func (s *Schema) mergeWithSchemaProperties(s2 Schema) {
 	s.mergeWithSchemaReferenceProperties(s2)
 }
 
+func (s *Schema) mergeWithSchemaAdditionalProperties(s2 Schema) {
+	// Keep the additional properties of the schema if there are some
+	if s.AdditionalProperties != nil {
+		return
+	}
+
+	// Take additional properties from s2, or from s2 reference
+	if s2.AdditionalProperties != nil {
+		s.AdditionalProperties = s2.AdditionalProperties
+	} else if s2.ReferenceTo != nil && s2.ReferenceTo.AdditionalProperties != nil {
+		s.AdditionalProperties = s2.ReferenceTo.AdditionalProperties.reuse()
+	}
+}
+
 func (s *Schema) mergeWithSchemaReferenceProperties(s2 Schema) {
 	// Return if there are no properties to merge
 	if s2.ReferenceTo == nil || s2.ReferenceTo.Properties == nil {
-- 
2.43.0


From fd9d82e569369e21ff024404ee2ddb3d693dc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:16 +0000
Subject: [PATCH 74/77] fix: import the custom types of the parameters of v2
 channels

---
 pkg/asyncapi/v2/extensions.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/asyncapi/v2/extensions.go b/pkg/asyncapi/v2/extensions.go
index 1f18399..1669e09 100644
--- a/pkg/asyncapi/v2/extensions.go
+++ b/pkg/asyncapi/v2/extensions.go
@@ -139,6 +139,14 @@ func (s Specification) CustomImports() ([]string, error) { //nolint:cyclop
 				return nil, fmt.Errorf("/channels messages %w", err)
 			}
 		}
+
+		for _, v := range ch.Parameters {
+			if v != nil && v.Schema != nil {
+				if err := v.Schema.goTypeImports(importsSet, seen); err != nil {
+					return nil, fmt.Errorf("/channels parameters custom import error: %w", err)
+				}
+			}
+		}
 	}
 
 	for _, v := range s.Components.Parameters {
-- 
2.43.0


From 2278f40111e05947a70e074e1ea900eca329803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 75/77] fix: import once the packages that generated code
 already imports

A custom type from one of the packages that the generated code imports by
itself (such as github.com/google/uuid or time) made it be imported twice,
and the generated code did not compile.
---
 pkg/codegen/generators/imports.go      | 40 ++++++++++++++++++++++++++
 pkg/codegen/generators/v2/generator.go |  2 +-
 pkg/codegen/generators/v3/generator.go |  2 +-
 3 files changed, 42 insertions(+), 2 deletions(-)
 create mode 100644 pkg/codegen/generators/imports.go

diff --git a/pkg/codegen/generators/imports.go b/pkg/codegen/generators/imports.go
new file mode 100644
index 0000000..d4f7916
--- /dev/null
+++ b/pkg/codegen/generators/imports.go
@@ -0,0 +1,40 @@
+package generators
+
+import (
+	"fmt"
+	"path"
+)
+
+// WithoutDefaultImports removes, from a list of custom imports, the ones that are
+// already part of the imports of generated code, as they would be redeclared.
+func WithoutDefaultImports(imports []string) []string {
+	filtered := make([]string, 0, len(imports))
+	for _, imp := range imports {
+		if !isDefaultImport(imp) {
+			filtered = append(filtered, imp)
+		}
+	}
+	return filtered
+}
+
+// isDefaultImport returns true if the import is present in the imports template,
+// without name or with the name that it has there.
+func isDefaultImport(imp string) bool {
+	for _, p := range []string{
+		"encoding/json",
+		"time",
+		"errors",
+		"fmt",
+		"context",
+		"encoding/binary",
+		"math",
+		"github.com/lerenn/asyncapi-codegen/pkg/extensions",
+		"github.com/google/uuid",
+		"cloud.google.com/go/civil",
+	} {
+		if imp == fmt.Sprintf("%q", p) || imp == fmt.Sprintf("%s %q", path.Base(p), p) {
+			return true
+		}
+	}
+	return false
+}
diff --git a/pkg/codegen/generators/v2/generator.go b/pkg/codegen/generators/v2/generator.go
index 40ad337..e482f2a 100644
--- a/pkg/codegen/generators/v2/generator.go
+++ b/pkg/codegen/generators/v2/generator.go
@@ -59,7 +59,7 @@ func (g Generator) generateImports(opts options.Options) (string, error) {
 		PackageName:   opts.PackageName,
 		ModuleVersion: g.ModuleVersion,
 		ModuleName:    g.ModulePath,
-		CustomImports: imps,
+		CustomImports: generators.WithoutDefaultImports(imps),
 	}.Generate()
 }
 
diff --git a/pkg/codegen/generators/v3/generator.go b/pkg/codegen/generators/v3/generator.go
index b2533f7..0374199 100644
--- a/pkg/codegen/generators/v3/generator.go
+++ b/pkg/codegen/generators/v3/generator.go
@@ -59,7 +59,7 @@ func (g Generator) generateImports(opts options.Options) (string, error) {
 		PackageName:   opts.PackageName,
 		ModuleVersion: g.ModuleVersion,
 		ModuleName:    g.ModulePath,
-		CustomImports: imps,
+		CustomImports: generators.WithoutDefaultImports(imps),
 	}.Generate()
 }
 
-- 
2.43.0


From d1807813a919d96f90680e6c276273b5bfa43aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:18 +0000
Subject: [PATCH 76/77] fix: quote the version and the addresses in generated
 code

Quotes, backslashes and line ends in the version of the document or in the
addresses of its channels gave code that did not compile, or another value.
---
 pkg/codegen/generators/v2/templates/controller.tmpl | 8 ++++----
 pkg/codegen/generators/v2/templates/subscriber.tmpl | 2 +-
 pkg/codegen/generators/v2/templates/types.tmpl      | 4 ++--
 pkg/codegen/generators/v3/templates/controller.tmpl | 2 +-
 pkg/codegen/generators/v3/templates/types.tmpl      | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/controller.tmpl b/pkg/codegen/generators/v2/templates/controller.tmpl
index 01078fa..0dc79a3 100644
--- a/pkg/codegen/generators/v2/templates/controller.tmpl
+++ b/pkg/codegen/generators/v2/templates/controller.tmpl
@@ -89,7 +89,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, path string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, path)
 }
@@ -142,7 +142,7 @@ func (c *{{ .Prefix }}Controller) UnsubscribeAll(ctx context.Context) {
 {{- end}}
 
 {{range  $key, $value := .SubscribeChannels -}}
-// Subscribe{{operationName $value}} will subscribe to new messages from '{{$key}}' channel.
+// Subscribe{{operationName $value}} will subscribe to new messages from '{{multiLineComment $key}}' channel.
 //
 // Callback function 'fn' will be called each time a new message is received.
 func (c *{{ $.Prefix }}Controller) Subscribe{{operationName $value}}(
@@ -252,7 +252,7 @@ func (c *{{ $.Prefix }}Controller) listenTo{{operationName $value}}NextMessage(
     return false, nil
 }
 
-// Unsubscribe{{operationName $value}} will unsubscribe messages from '{{$key}}' channel.
+// Unsubscribe{{operationName $value}} will unsubscribe messages from '{{multiLineComment $key}}' channel.
 // A timeout can be set in context to avoid blocking operation, if needed.
 {{- if .Parameters}}
 func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx context.Context, params {{namifyWithoutParam $value.Name}}Parameters) {
@@ -282,7 +282,7 @@ func (c *{{ $.Prefix }}Controller) Unsubscribe{{operationName $value}}(ctx conte
 {{end}}
 
 {{- range  $key, $value := .PublishChannels}}
-// Publish{{operationName $value}} will publish messages to '{{$key}}' channel
+// Publish{{operationName $value}} will publish messages to '{{multiLineComment $key}}' channel
 func (c *{{ $.Prefix }}Controller) Publish{{operationName $value}}(
     ctx context.Context,
     {{- if .Parameters }}
diff --git a/pkg/codegen/generators/v2/templates/subscriber.tmpl b/pkg/codegen/generators/v2/templates/subscriber.tmpl
index 9a03bf1..1b72d1b 100644
--- a/pkg/codegen/generators/v2/templates/subscriber.tmpl
+++ b/pkg/codegen/generators/v2/templates/subscriber.tmpl
@@ -5,7 +5,7 @@
 // {{ .Prefix }}Subscriber represents all handlers that are expecting messages for {{ .Prefix }}
 type {{ .Prefix }}Subscriber interface {
 {{- range  $key, $value := .Channels}}
-    // {{operationName $value}} subscribes to messages placed on the '{{ $key }}' channel
+    // {{operationName $value}} subscribes to messages placed on the '{{ multiLineComment $key }}' channel
     {{operationName $value}}(ctx context.Context, msg {{(channelToMessage $value $received).Name}}) error
 {{end}}
 }
diff --git a/pkg/codegen/generators/v2/templates/types.tmpl b/pkg/codegen/generators/v2/templates/types.tmpl
index eb1eb3b..3918fae 100644
--- a/pkg/codegen/generators/v2/templates/types.tmpl
+++ b/pkg/codegen/generators/v2/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -88,7 +88,7 @@ type {{ namifyWithoutParam .Name }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Name }}Path is the constant representing the '{{ .Name }}' channel path.
-    {{ namifyWithoutParam .Name }}Path = "{{$key}}"
+    {{ namifyWithoutParam .Name }}Path = {{ printf "%q" $key }}
 {{- end}}
 )
 
diff --git a/pkg/codegen/generators/v3/templates/controller.tmpl b/pkg/codegen/generators/v3/templates/controller.tmpl
index 7d78840..e49a8dd 100644
--- a/pkg/codegen/generators/v3/templates/controller.tmpl
+++ b/pkg/codegen/generators/v3/templates/controller.tmpl
@@ -86,7 +86,7 @@ func (c {{ .Prefix }}Controller) executeMiddlewares(ctx context.Context, msg *ex
 }
 
 func add{{ .Prefix }}ContextValues(ctx context.Context, addr string) context.Context {
-    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "{{ .Version }}")
+    ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, {{ printf "%q" .Version }})
     ctx = context.WithValue(ctx, extensions.ContextKeyIsProvider, "{{ snakeCase .Prefix }}")
     return context.WithValue(ctx, extensions.ContextKeyIsChannel, addr)
 }
diff --git a/pkg/codegen/generators/v3/templates/types.tmpl b/pkg/codegen/generators/v3/templates/types.tmpl
index 6904e11..1355eb3 100644
--- a/pkg/codegen/generators/v3/templates/types.tmpl
+++ b/pkg/codegen/generators/v3/templates/types.tmpl
@@ -1,5 +1,5 @@
 // AsyncAPIVersion is the version of the used AsyncAPI document
-const AsyncAPIVersion = "{{ .Info.Version }}"
+const AsyncAPIVersion = {{ printf "%q" .Info.Version }}
 
 // controller is the controller that will be used to communicate with the broker
 // It will be used internally by AppController and UserController
@@ -88,7 +88,7 @@ type {{ namifyWithoutParam .Follow.Name }}Parameters struct {
 const(
 {{- range $key, $value := .Channels}}
     // {{ namifyWithoutParam .Follow.Name }}Path is the constant representing the '{{ .Follow.Name }}' channel path.
-    {{ namifyWithoutParam .Follow.Name }}Path = "{{ .Follow.Address }}"
+    {{ namifyWithoutParam .Follow.Name }}Path = {{ printf "%q" .Follow.Address }}
 {{- end}}
 )
 
-- 
2.43.0


From 41f65efdf3f5d83a7d02daa60c98ec79dfc6400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:18 +0000
Subject: [PATCH 77/77] fix: keep the percents of the addresses that have
 parameters

They were taken for verbs of the format that builds the address.
---
 pkg/codegen/generators/v2/templates/helpers.go | 3 ++-
 pkg/codegen/generators/v3/templates/helpers.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/codegen/generators/v2/templates/helpers.go b/pkg/codegen/generators/v2/templates/helpers.go
index 9ca62f2..2eba98d 100644
--- a/pkg/codegen/generators/v2/templates/helpers.go
+++ b/pkg/codegen/generators/v2/templates/helpers.go
@@ -118,7 +118,8 @@ func GenerateChannelPath(ch asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Path, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Path, "%v")
+	// The rest of the address should not be taken for formatting verbs
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Path, "%", "%%"), "%v")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
diff --git a/pkg/codegen/generators/v3/templates/helpers.go b/pkg/codegen/generators/v3/templates/helpers.go
index 6473c57..c0a6515 100644
--- a/pkg/codegen/generators/v3/templates/helpers.go
+++ b/pkg/codegen/generators/v3/templates/helpers.go
@@ -121,7 +121,8 @@ func GenerateChannelAddr(ch *asyncapi.Channel) string {
 	parameterRegexp := regexp.MustCompile("{[^{}]*}")
 
 	matches := parameterRegexp.FindAllString(ch.Address, -1)
-	format := parameterRegexp.ReplaceAllString(ch.Address, "%s")
+	// The rest of the address should not be taken for formatting verbs
+	format := parameterRegexp.ReplaceAllString(strings.ReplaceAll(ch.Address, "%", "%%"), "%s")
 
 	sprint := fmt.Sprintf("fmt.Sprintf(%q, ", format)
 	for _, m := range matches {
-- 
2.43.0


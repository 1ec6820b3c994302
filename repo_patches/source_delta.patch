From 1b4f7398e7734a90db42d851715c56ded71b7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 01/15] fix: uAvionix: look parsers up in the table the package
 declares

The package did not compile: the dialect referred to uavionixParsers,
the table is uAvionixParsers.
---
 uAvionix/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uAvionix/dialect.go b/uAvionix/dialect.go
index d9de5c4..423b956 100644
--- a/uAvionix/dialect.go
+++ b/uAvionix/dialect.go
@@ -47,7 +47,7 @@ func (d Dialect) GetMeta(messageID uint32) (meta mavlink2.MessageMeta, err error
 
 // GetMessage extracts and parses the message contained in the Frame
 func (d Dialect) GetMessage(frame mavlink2.Frame) (message mavlink2.Message, err error) {
-	if parser, ok := uavionixParsers[frame.GetMessageID()]; ok {
+	if parser, ok := uAvionixParsers[frame.GetMessageID()]; ok {
 		message, err = parser(frame)
 		return
 	}
-- 
2.43.0


From 051a89dfa4c83ebe497e7ddedf28b434f76c268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 02/15] fix: truncate an all-zero V2 payload to its first byte

TruncateV2 returned an all-zero payload untouched, including the extra byte
the message encoders append for HasExtensionFieldValues, so the frame of an
all-zero message was longer than the message may be and failed Validate.
---
 util/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/util.go b/util/util.go
index 4ca91fd..b27ef78 100644
--- a/util/util.go
+++ b/util/util.go
@@ -9,6 +9,11 @@ func TruncateV2(input []byte) []byte {
 		}
 	}
 
+	// The first byte of the payload is never truncated, even if it is zero
+	if len(input) > 0 {
+		return input[:1]
+	}
+
 	return input
 }
 
-- 
2.43.0


From e151e54e4f5c9cf45d953a9ed6bb6343eab225cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 03/15] fix: write the V1 frame header in wire order

MAVLink 1 headers are sequence, system, component; packFrame wrote system,
component, sequence, which FrameV1 (and every peer) reads back scrambled.
---
 stream.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream.go b/stream.go
index e5379b3..7d71fa4 100644
--- a/stream.go
+++ b/stream.go
@@ -305,9 +305,9 @@ func packFrame(version int, senderSystemID, senderComponentID, messageSequence u
 		frameBytes = make([]byte, len(messageBytes)+6)
 		frameBytes[0] = V1StartByte
 		frameBytes[1] = uint8(len(messageBytes))
-		frameBytes[2] = senderSystemID
-		frameBytes[3] = senderComponentID
-		frameBytes[4] = messageSequence
+		frameBytes[2] = messageSequence
+		frameBytes[3] = senderSystemID
+		frameBytes[4] = senderComponentID
 
 		idBytes := make([]byte, 4)
 		binary.LittleEndian.PutUint32(idBytes, message.GetID())
-- 
2.43.0


From 01db0ceb767bef5c4b7e26cb63ead61f985c1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 04/15] fix: detect V2 signatures by the incompatibility flags

The signed bit lives in the incompatibility flags, which is where the stream
reader looks for it. GetSignature tested the compatibility flags instead, so
it missed signatures and sliced past the end of unsigned frames.
---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index a27cc43..27d1995 100644
--- a/frame.go
+++ b/frame.go
@@ -195,7 +195,7 @@ func (frame FrameV2) GetChecksumInput() []byte {
 
 // GetSignature returns the V2 Signature of the frame, if it exists
 func (frame FrameV2) GetSignature() []byte {
-	if frame.GetCompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
+	if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {
 		return nil
 	}
 	start := frame.GetMessageLength() + 12
-- 
2.43.0


From 058ae319f24fb53283b0bbdae37c44877e78df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 05/15] fix: V2Extension messages are variable length in V1
 frames

Write(1) emits 5 bytes plus the payload in use, which Validate then rejected
as shorter than the minimum of 254.
---
 common/dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/dialect.go b/common/dialect.go
index cf90dd8..7725f73 100644
--- a/common/dialect.go
+++ b/common/dialect.go
@@ -190,7 +190,7 @@ var commonMessages = map[uint32]mavlink2.MessageMeta{
 	245:   mavlink2.MessageMeta{CRCExtra: 130, MinimumLength: 2, MaximumLength: 2},
 	246:   mavlink2.MessageMeta{CRCExtra: 184, MinimumLength: 38, MaximumLength: 38},
 	247:   mavlink2.MessageMeta{CRCExtra: 81, MinimumLength: 19, MaximumLength: 19},
-	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 254, MaximumLength: 254},
+	248:   mavlink2.MessageMeta{CRCExtra: 8, MinimumLength: 5, MaximumLength: 254},
 	249:   mavlink2.MessageMeta{CRCExtra: 204, MinimumLength: 36, MaximumLength: 36},
 	250:   mavlink2.MessageMeta{CRCExtra: 49, MinimumLength: 30, MaximumLength: 30},
 	251:   mavlink2.MessageMeta{CRCExtra: 170, MinimumLength: 18, MaximumLength: 18},
-- 
2.43.0


From 2b7b5f6cf4fded1996b115347456b1d6ae60aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 06/15] fix: do not underflow the V2Extension payload length

A V2 frame whose trailing zeros were truncated may carry fewer than 5 bytes;
the unsigned subtraction wrapped around before the clamp to zero.
---
 common/v2_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/v2_extension.go b/common/v2_extension.go
index 58bc6a5..5e4842c 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -163,7 +163,7 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	copy(ioBytes, frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength()-5)))
+	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength())-5))
 
 	buffer := bytes.NewBuffer(ioBytes)
 
-- 
2.43.0


From 29380b906f9db47966db442ccf832c211f1c1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 07/15] fix: report every message as unknown when no dialect is
 loaded

With an empty Dialects, GetMessage returned a nil message without an error,
GetFrame packed a frame with a zero CRC extra and Validate accepted one.
---
 dialect.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dialect.go b/dialect.go
index 1beea4e..e21bc2b 100644
--- a/dialect.go
+++ b/dialect.go
@@ -37,6 +37,9 @@ type Dialects []Dialect
 
 // GetMessage decodes the message in the Frame
 func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
+	// Without any Dialect every message is unknown
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		message, err = dialect.GetMessage(frame)
 
@@ -59,6 +62,9 @@ func (d Dialects) GetMessage(frame Frame) (message Message, err error) {
 func (d Dialects) GetFrame(version int, senderSystemID, senderComponentID, messageSequence uint8, message Message) (frame Frame, err error) {
 	var meta MessageMeta
 
+	// Without any Dialect every message is unknown
+	err = ErrUnknownMessage
+
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(message.GetID())
 
@@ -85,7 +91,8 @@ func (d Dialects) Validate(frame Frame) error {
 	checksum.Reset()
 
 	var meta MessageMeta
-	var err error
+	// Without any Dialect every message is unknown
+	err := ErrUnknownMessage
 	for _, dialect := range d {
 		meta, err = dialect.GetMeta(frame.GetMessageID())
 
-- 
2.43.0


From b740c60d372247021e34cf477a4f9b77810b638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 08/15] fix: FrameFromBytes reports input shorter than the
 frame to copy

It panicked, or copied bytes past the end of the input if its capacity
allowed.
---
 frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frame.go b/frame.go
index 27d1995..00433f0 100644
--- a/frame.go
+++ b/frame.go
@@ -272,6 +272,11 @@ func FrameFromBytes(raw []byte, frameLength uint16, makeCopy bool) (frame Frame,
 		return
 	}
 
+	if makeCopy && len(raw) < int(frameLength) {
+		err = ErrFrameTooShort
+		return
+	}
+
 	startByte := raw[0]
 
 	if startByte == V1StartByte {
-- 
2.43.0


From 5ba7bd0289b1aed4535a54a87f868a9555fd7a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 09/15] fix: synchronise GetCloseErr with close

It read closeErr without the lock under which close writes it.
---
 stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream.go b/stream.go
index 7d71fa4..79e1562 100644
--- a/stream.go
+++ b/stream.go
@@ -142,6 +142,9 @@ func (s *FrameStream) close(err error) {
 }
 
 func (s *FrameStream) GetCloseErr() error {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.closeErr
 }
 
-- 
2.43.0


From 4432db6f9febc5119d0ac74c742b3a2c08cdbf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 10/15] fix: closing a stream no longer panics a reader with a
 pending frame

close closed outputFrames while ReadContext could be blocked sending to it
(or about to): send on closed channel. The pending delivery also ignored
cancellation, so ReadContext hung if its consumer had gone.
---
 stream.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/stream.go b/stream.go
index 79e1562..d6c71b4 100644
--- a/stream.go
+++ b/stream.go
@@ -67,6 +67,7 @@ type FrameStream struct {
 	closeErr            error
 	closeOnce           sync.Once
 	closed              chan struct{}
+	deliverMutex        sync.Mutex
 	buffer              []byte
 	bufferIndex         int
 	dialects            Dialects
@@ -136,8 +137,12 @@ func (s *FrameStream) close(err error) {
 		s.closeErr = err
 
 		s.rwc.Close()
-		close(s.outputFrames)
 		close(s.closed)
+
+		// Wait for a delivery in progress: it ends now that closed is closed
+		s.deliverMutex.Lock()
+		defer s.deliverMutex.Unlock()
+		close(s.outputFrames)
 	})
 }
 
@@ -188,11 +193,40 @@ func (s *FrameStream) ReadContext(ctx context.Context) {
 			if s.logger != nil {
 				s.logger.LogRead(frame.Bytes())
 			}
-			s.outputFrames <- frame
+			if !s.deliver(ctx, frame) {
+				return
+			}
 		}
 	}
 }
 
+// deliver hands the frame to the consumer of Read. It returns false, without delivering
+// the frame, if the FrameStream is closed or the context is done before the consumer takes it
+func (s *FrameStream) deliver(ctx context.Context, frame Frame) bool {
+	s.deliverMutex.Lock()
+
+	// close does not close outputFrames before it holds deliverMutex
+	select {
+	case <-s.closed:
+		s.deliverMutex.Unlock()
+		return false
+	default:
+	}
+
+	select {
+	case <-s.closed:
+		s.deliverMutex.Unlock()
+		return false
+	case <-ctx.Done():
+		s.deliverMutex.Unlock()
+		s.close(ctx.Err())
+		return false
+	case s.outputFrames <- frame:
+		s.deliverMutex.Unlock()
+		return true
+	}
+}
+
 func peekHeader(buffer []byte) (frameLength uint16, startFound bool) {
 	messageLength := buffer[1]
 	startByte := buffer[0]
-- 
2.43.0


From 53754a8bd0e1e5f6d2f724e29aea435589b275f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 11/15] fix: WriteContext returns when the stream is closed

It kept waiting for frames to write to the closed transport until its context
ended or somebody sent one.
---
 stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream.go b/stream.go
index d6c71b4..a3d54cd 100644
--- a/stream.go
+++ b/stream.go
@@ -159,6 +159,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 		case <-ctx.Done():
 			s.close(ctx.Err())
 			return
+		case <-s.closed:
+			return
 		case frame, ok := <-s.inputFrames:
 			if !ok {
 				s.close(ErrWriteChannelClosed)
-- 
2.43.0


From 6f2221473f072fa17806fede64089db955f96232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 12/15] fix: string setters clear the rest of the field

Setting a shorter string left the tail of the previous one in place, and
the getter returned both.
---
 ardupilotmega/device_op_read.go     |  5 +++++
 ardupilotmega/device_op_write.go    |  5 +++++
 common/adsb_vehicle.go              |  5 +++++
 common/ais_vessel.go                | 10 ++++++++++
 common/auth_key.go                  |  5 +++++
 common/camera_image_captured.go     |  5 +++++
 common/camera_information.go        |  5 +++++
 common/change_operator_control.go   |  5 +++++
 common/component_information.go     |  5 +++++
 common/debug_float_array.go         |  5 +++++
 common/debug_vect.go                |  5 +++++
 common/named_value_float.go         |  5 +++++
 common/named_value_int.go           |  5 +++++
 common/open_drone_id_operator_id.go |  5 +++++
 common/open_drone_id_self_id.go     |  5 +++++
 common/param_ext_ack.go             | 10 ++++++++++
 common/param_ext_request_read.go    |  5 +++++
 common/param_ext_set.go             | 10 ++++++++++
 common/param_ext_value.go           | 10 ++++++++++
 common/param_map_rc.go              |  5 +++++
 common/param_request_read.go        |  5 +++++
 common/param_set.go                 |  5 +++++
 common/param_value.go               |  5 +++++
 common/play_tune.go                 | 10 ++++++++++
 common/play_tune_v2.go              |  5 +++++
 common/smart_battery_info.go        |  5 +++++
 common/statustext.go                |  5 +++++
 common/statustext_long.go           |  5 +++++
 common/uavcan_node_info.go          |  5 +++++
 common/video_stream_information.go  | 10 ++++++++++
 common/wifi_config_ap.go            | 10 ++++++++++
 paparazzi/script_item.go            |  5 +++++
 uAvionix/uavionix_adsb_out_cfg.go   |  5 +++++
 33 files changed, 200 insertions(+)

diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index fa99ade..f5c4be7 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -102,6 +102,11 @@ func (m *DeviceOpRead) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
 	copy(m.Busname[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Busname); i++ {
+		m.Busname[i] = 0
+	}
+
 	if len(input) > 40 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index cbff8ce..5fa60ff 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -106,6 +106,11 @@ func (m *DeviceOpWrite) SetBusname(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(40)))
 	copy(m.Busname[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Busname); i++ {
+		m.Busname[i] = 0
+	}
+
 	if len(input) > 40 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index cd7493c..b7dce27 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -118,6 +118,11 @@ func (m *AdsbVehicle) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
 	copy(m.Callsign[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Callsign); i++ {
+		m.Callsign[i] = 0
+	}
+
 	if len(input) > 9 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 2f81840..0cac94d 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -134,6 +134,11 @@ func (m *AisVessel) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(7)))
 	copy(m.Callsign[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Callsign); i++ {
+		m.Callsign[i] = 0
+	}
+
 	if len(input) > 7 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -153,6 +158,11 @@ func (m *AisVessel) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 20 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/auth_key.go b/common/auth_key.go
index 40953ae..671753c 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -70,6 +70,11 @@ func (m *AuthKey) SetKey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
 	copy(m.Key[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Key); i++ {
+		m.Key[i] = 0
+	}
+
 	if len(input) > 32 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index ab33c9e..31c143d 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -110,6 +110,11 @@ func (m *CameraImageCaptured) SetFileURL(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(205)))
 	copy(m.FileURL[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.FileURL); i++ {
+		m.FileURL[i] = 0
+	}
+
 	if len(input) > 205 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/camera_information.go b/common/camera_information.go
index 14340b6..764c0c8 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -118,6 +118,11 @@ func (m *CameraInformation) SetCamDefinitionURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(140)))
 	copy(m.CamDefinitionURI[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.CamDefinitionURI); i++ {
+		m.CamDefinitionURI[i] = 0
+	}
+
 	if len(input) > 140 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index d999970..75eeaf1 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -82,6 +82,11 @@ func (m *ChangeOperatorControl) SetPasskey(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(25)))
 	copy(m.Passkey[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Passkey); i++ {
+		m.Passkey[i] = 0
+	}
+
 	if len(input) > 25 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/component_information.go b/common/component_information.go
index caca03b..c336a94 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -98,6 +98,11 @@ func (m *ComponentInformation) SetComponentDefinitionURI(input string) (err erro
 	clen := int(math.Min(float64(len(input)), float64(140)))
 	copy(m.ComponentDefinitionURI[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ComponentDefinitionURI); i++ {
+		m.ComponentDefinitionURI[i] = 0
+	}
+
 	if len(input) > 140 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index ce35d70..34ff1b3 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -99,6 +99,11 @@ func (m *DebugFloatArray) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 52a2b4e..8b2f4a6 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -86,6 +86,11 @@ func (m *DebugVect) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/named_value_float.go b/common/named_value_float.go
index 492728a..f8aebf4 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -78,6 +78,11 @@ func (m *NamedValueFloat) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/named_value_int.go b/common/named_value_int.go
index a347384..64074f5 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -78,6 +78,11 @@ func (m *NamedValueInt) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(10)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 10 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 5d0a1ee..01fc6b0 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -74,6 +74,11 @@ func (m *OpenDroneIDOperatorID) SetOperatorID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(20)))
 	copy(m.OperatorID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.OperatorID); i++ {
+		m.OperatorID[i] = 0
+	}
+
 	if len(input) > 20 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 8f0eb12..643aa8e 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -74,6 +74,11 @@ func (m *OpenDroneIDSelfID) SetDescription(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(23)))
 	copy(m.Description[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Description); i++ {
+		m.Description[i] = 0
+	}
+
 	if len(input) > 23 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 6aafc61..73bb5f2 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -82,6 +82,11 @@ func (m *ParamExtAck) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -101,6 +106,11 @@ func (m *ParamExtAck) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamValue); i++ {
+		m.ParamValue[i] = 0
+	}
+
 	if len(input) > 128 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index 6f95d4e..bfd13c7 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -82,6 +82,11 @@ func (m *ParamExtRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 12c1530..025de6a 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -86,6 +86,11 @@ func (m *ParamExtSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -105,6 +110,11 @@ func (m *ParamExtSet) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamValue); i++ {
+		m.ParamValue[i] = 0
+	}
+
 	if len(input) > 128 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 743dc97..9cff55e 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -86,6 +86,11 @@ func (m *ParamExtValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -105,6 +110,11 @@ func (m *ParamExtValue) SetParamValue(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(128)))
 	copy(m.ParamValue[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamValue); i++ {
+		m.ParamValue[i] = 0
+	}
+
 	if len(input) > 128 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 8aec9b0..3f04556 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -102,6 +102,11 @@ func (m *ParamMapRC) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 2a6456d..1aa3685 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -82,6 +82,11 @@ func (m *ParamRequestRead) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_set.go b/common/param_set.go
index 8f5d597..469e01f 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -86,6 +86,11 @@ func (m *ParamSet) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/param_value.go b/common/param_value.go
index 9cb1a20..6dbdda3 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -86,6 +86,11 @@ func (m *ParamValue) SetParamID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(16)))
 	copy(m.ParamID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.ParamID); i++ {
+		m.ParamID[i] = 0
+	}
+
 	if len(input) > 16 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/play_tune.go b/common/play_tune.go
index 9aeff5e..aefa225 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -99,6 +99,11 @@ func (m *PlayTune) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(30)))
 	copy(m.Tune[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Tune); i++ {
+		m.Tune[i] = 0
+	}
+
 	if len(input) > 30 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -118,6 +123,11 @@ func (m *PlayTune) SetTune2(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(200)))
 	copy(m.Tune2[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Tune2); i++ {
+		m.Tune2[i] = 0
+	}
+
 	if len(input) > 200 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index 4399c8c..fc30484 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -82,6 +82,11 @@ func (m *PlayTuneV2) SetTune(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(248)))
 	copy(m.Tune[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Tune); i++ {
+		m.Tune[i] = 0
+	}
+
 	if len(input) > 248 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 82355e8..471278f 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -106,6 +106,11 @@ func (m *SmartBatteryInfo) SetDeviceName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
 	copy(m.DeviceName[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.DeviceName); i++ {
+		m.DeviceName[i] = 0
+	}
+
 	if len(input) > 50 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/statustext.go b/common/statustext.go
index addfc4e..6e557b8 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -74,6 +74,11 @@ func (m *Statustext) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
 	copy(m.Text[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Text); i++ {
+		m.Text[i] = 0
+	}
+
 	if len(input) > 50 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/statustext_long.go b/common/statustext_long.go
index dff0134..f6a4d72 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -74,6 +74,11 @@ func (m *StatustextLong) SetText(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(254)))
 	copy(m.Text[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Text); i++ {
+		m.Text[i] = 0
+	}
+
 	if len(input) > 254 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 00fb5c7..756aa8c 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -102,6 +102,11 @@ func (m *UavcanNodeInfo) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(80)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 80 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index e8cd673..95fc8b6 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -114,6 +114,11 @@ func (m *VIDeoStreamInformation) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 32 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -133,6 +138,11 @@ func (m *VIDeoStreamInformation) SetURI(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(160)))
 	copy(m.URI[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.URI); i++ {
+		m.URI[i] = 0
+	}
+
 	if len(input) > 160 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 4b5febf..50898d6 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -74,6 +74,11 @@ func (m *WifiConfigAp) SetSsID(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(32)))
 	copy(m.SsID[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.SsID); i++ {
+		m.SsID[i] = 0
+	}
+
 	if len(input) > 32 {
 		err = mavlink2.ErrValueTooLong
 	}
@@ -93,6 +98,11 @@ func (m *WifiConfigAp) SetPassword(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(64)))
 	copy(m.Password[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Password); i++ {
+		m.Password[i] = 0
+	}
+
 	if len(input) > 64 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index cdb8974..fc488aa 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -82,6 +82,11 @@ func (m *ScriptItem) SetName(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(50)))
 	copy(m.Name[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Name); i++ {
+		m.Name[i] = 0
+	}
+
 	if len(input) > 50 {
 		err = mavlink2.ErrValueTooLong
 	}
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 64dd936..603b59f 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -98,6 +98,11 @@ func (m *UavionixAdsbOutCfg) SetCallsign(input string) (err error) {
 	clen := int(math.Min(float64(len(input)), float64(9)))
 	copy(m.Callsign[:], []byte(input)[:clen])
 
+	// Clear what is left of a longer value set earlier
+	for i := clen; i < len(m.Callsign); i++ {
+		m.Callsign[i] = 0
+	}
+
 	if len(input) > 9 {
 		err = mavlink2.ErrValueTooLong
 	}
-- 
2.43.0


From d2c4fad991129c2efa2c8dcc375fb80f8a77a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 13/15] fix: limit the V2Extension payload length to the field

---
 common/v2_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/v2_extension.go b/common/v2_extension.go
index 5e4842c..8997c34 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -163,7 +163,7 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	copy(ioBytes, frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
-	ioBytes[len(ioBytes)-1] = uint8(math.Max(0, float64(frame.GetMessageLength())-5))
+	ioBytes[len(ioBytes)-1] = uint8(math.Min(float64(len(m.Payload)), math.Max(0, float64(frame.GetMessageLength())-5)))
 
 	buffer := bytes.NewBuffer(ioBytes)
 
-- 
2.43.0


From 58446840a06ada9fbbfa2e0dc28edcfe0924169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 14/15] fix: payload bytes beyond a message's maximum do not
 mark it as extended

---
 ardupilotmega/adap_tuning.go                        | 3 ++-
 ardupilotmega/ahrs.go                               | 3 ++-
 ardupilotmega/ahrs2.go                              | 3 ++-
 ardupilotmega/ahrs3.go                              | 3 ++-
 ardupilotmega/airspeed_autocal.go                   | 3 ++-
 ardupilotmega/aoa_ssa.go                            | 3 ++-
 ardupilotmega/ap_adc.go                             | 3 ++-
 ardupilotmega/autopilot_version_request.go          | 3 ++-
 ardupilotmega/battery2.go                           | 3 ++-
 ardupilotmega/camera_feedback.go                    | 3 ++-
 ardupilotmega/camera_status.go                      | 3 ++-
 ardupilotmega/compassmot_status.go                  | 3 ++-
 ardupilotmega/data16.go                             | 3 ++-
 ardupilotmega/data32.go                             | 3 ++-
 ardupilotmega/data64.go                             | 3 ++-
 ardupilotmega/data96.go                             | 3 ++-
 ardupilotmega/deepstall.go                          | 3 ++-
 ardupilotmega/device_op_read.go                     | 3 ++-
 ardupilotmega/device_op_read_reply.go               | 3 ++-
 ardupilotmega/device_op_write.go                    | 3 ++-
 ardupilotmega/device_op_write_reply.go              | 3 ++-
 ardupilotmega/digicam_configure.go                  | 3 ++-
 ardupilotmega/digicam_control.go                    | 3 ++-
 ardupilotmega/efi_status.go                         | 3 ++-
 ardupilotmega/ekf_status_report.go                  | 3 ++-
 ardupilotmega/esc_telemetry_1_to_4.go               | 3 ++-
 ardupilotmega/esc_telemetry_5_to_8.go               | 3 ++-
 ardupilotmega/esc_telemetry_9_to_12.go              | 3 ++-
 ardupilotmega/fence_fetch_point.go                  | 3 ++-
 ardupilotmega/fence_point.go                        | 3 ++-
 ardupilotmega/fence_status.go                       | 3 ++-
 ardupilotmega/gimbal_control.go                     | 3 ++-
 ardupilotmega/gimbal_report.go                      | 3 ++-
 ardupilotmega/gimbal_torque_cmd_report.go           | 3 ++-
 ardupilotmega/gopro_get_request.go                  | 3 ++-
 ardupilotmega/gopro_get_response.go                 | 3 ++-
 ardupilotmega/gopro_heartbeat.go                    | 3 ++-
 ardupilotmega/gopro_set_request.go                  | 3 ++-
 ardupilotmega/gopro_set_response.go                 | 3 ++-
 ardupilotmega/hwstatus.go                           | 3 ++-
 ardupilotmega/led_control.go                        | 3 ++-
 ardupilotmega/limits_status.go                      | 3 ++-
 ardupilotmega/mag_cal_progress.go                   | 3 ++-
 ardupilotmega/mag_cal_report.go                     | 3 ++-
 ardupilotmega/meminfo.go                            | 3 ++-
 ardupilotmega/mount_configure.go                    | 3 ++-
 ardupilotmega/mount_control.go                      | 3 ++-
 ardupilotmega/mount_status.go                       | 3 ++-
 ardupilotmega/pid_tuning.go                         | 3 ++-
 ardupilotmega/radio.go                              | 3 ++-
 ardupilotmega/rally_fetch_point.go                  | 3 ++-
 ardupilotmega/rally_point.go                        | 3 ++-
 ardupilotmega/rangefinder.go                        | 3 ++-
 ardupilotmega/remote_log_block_status.go            | 3 ++-
 ardupilotmega/remote_log_data_block.go              | 3 ++-
 ardupilotmega/rpm.go                                | 3 ++-
 ardupilotmega/sensor_offsets.go                     | 3 ++-
 ardupilotmega/set_mag_offsets.go                    | 3 ++-
 ardupilotmega/simstate.go                           | 3 ++-
 ardupilotmega/vision_position_delta.go              | 3 ++-
 ardupilotmega/wind.go                               | 3 ++-
 asluav/asl_obctrl.go                                | 3 ++-
 asluav/aslctrl_data.go                              | 3 ++-
 asluav/aslctrl_debug.go                             | 3 ++-
 asluav/asluav_status.go                             | 3 ++-
 asluav/command_int_stamped.go                       | 3 ++-
 asluav/command_long_stamped.go                      | 3 ++-
 asluav/ekf_ext.go                                   | 3 ++-
 asluav/fw_soaring_data.go                           | 3 ++-
 asluav/gsm_link_status.go                           | 3 ++-
 asluav/satcom_link_status.go                        | 3 ++-
 asluav/sens_atmos.go                                | 3 ++-
 asluav/sens_batmon.go                               | 3 ++-
 asluav/sens_mppt.go                                 | 3 ++-
 asluav/sens_power.go                                | 3 ++-
 asluav/sens_power_board.go                          | 3 ++-
 asluav/sensorpod_status.go                          | 3 ++-
 autoquad/aq_esc_telemetry.go                        | 3 ++-
 autoquad/aq_telemetry_f.go                          | 3 ++-
 common/actuator_control_target.go                   | 3 ++-
 common/actuator_output_status.go                    | 3 ++-
 common/adsb_vehicle.go                              | 3 ++-
 common/ais_vessel.go                                | 3 ++-
 common/altitude.go                                  | 3 ++-
 common/att_pos_mocap.go                             | 3 ++-
 common/attitude.go                                  | 3 ++-
 common/attitude_quaternion.go                       | 3 ++-
 common/attitude_quaternion_cov.go                   | 3 ++-
 common/attitude_target.go                           | 3 ++-
 common/auth_key.go                                  | 3 ++-
 common/autopilot_version.go                         | 3 ++-
 common/battery_status.go                            | 3 ++-
 common/button_change.go                             | 3 ++-
 common/camera_capture_status.go                     | 3 ++-
 common/camera_image_captured.go                     | 3 ++-
 common/camera_information.go                        | 3 ++-
 common/camera_settings.go                           | 3 ++-
 common/camera_trigger.go                            | 3 ++-
 common/cellular_status.go                           | 3 ++-
 common/change_operator_control.go                   | 3 ++-
 common/change_operator_control_ack.go               | 3 ++-
 common/collision.go                                 | 3 ++-
 common/command_ack.go                               | 3 ++-
 common/command_int.go                               | 3 ++-
 common/command_long.go                              | 3 ++-
 common/component_information.go                     | 3 ++-
 common/control_system_state.go                      | 3 ++-
 common/data_stream.go                               | 3 ++-
 common/data_transmission_handshake.go               | 3 ++-
 common/debug.go                                     | 3 ++-
 common/debug_float_array.go                         | 3 ++-
 common/debug_vect.go                                | 3 ++-
 common/distance_sensor.go                           | 3 ++-
 common/encapsulated_data.go                         | 3 ++-
 common/estimator_status.go                          | 3 ++-
 common/extended_sys_state.go                        | 3 ++-
 common/fence_status.go                              | 3 ++-
 common/file_transfer_protocol.go                    | 3 ++-
 common/flight_information.go                        | 3 ++-
 common/follow_target.go                             | 3 ++-
 common/global_position_int.go                       | 3 ++-
 common/global_position_int_cov.go                   | 3 ++-
 common/global_vision_position_estimate.go           | 3 ++-
 common/gps2_raw.go                                  | 3 ++-
 common/gps2_rtk.go                                  | 3 ++-
 common/gps_global_origin.go                         | 3 ++-
 common/gps_inject_data.go                           | 3 ++-
 common/gps_input.go                                 | 3 ++-
 common/gps_raw_int.go                               | 3 ++-
 common/gps_rtcm_data.go                             | 3 ++-
 common/gps_rtk.go                                   | 3 ++-
 common/gps_status.go                                | 3 ++-
 common/heartbeat.go                                 | 3 ++-
 common/high_latency.go                              | 3 ++-
 common/high_latency2.go                             | 3 ++-
 common/highres_imu.go                               | 3 ++-
 common/hil_actuator_controls.go                     | 3 ++-
 common/hil_controls.go                              | 3 ++-
 common/hil_gps.go                                   | 3 ++-
 common/hil_optical_flow.go                          | 3 ++-
 common/hil_rc_inputs_raw.go                         | 3 ++-
 common/hil_sensor.go                                | 3 ++-
 common/hil_state.go                                 | 3 ++-
 common/hil_state_quaternion.go                      | 3 ++-
 common/home_position.go                             | 3 ++-
 common/isbd_link_status.go                          | 3 ++-
 common/landing_target.go                            | 3 ++-
 common/link_node_status.go                          | 3 ++-
 common/local_position_ned.go                        | 3 ++-
 common/local_position_ned_cov.go                    | 3 ++-
 common/local_position_ned_system_global_offset.go   | 3 ++-
 common/log_data.go                                  | 3 ++-
 common/log_entry.go                                 | 3 ++-
 common/log_erase.go                                 | 3 ++-
 common/log_request_data.go                          | 3 ++-
 common/log_request_end.go                           | 3 ++-
 common/log_request_list.go                          | 3 ++-
 common/logging_ack.go                               | 3 ++-
 common/logging_data.go                              | 3 ++-
 common/logging_data_acked.go                        | 3 ++-
 common/manual_control.go                            | 3 ++-
 common/manual_setpoint.go                           | 3 ++-
 common/memory_vect.go                               | 3 ++-
 common/message_interval.go                          | 3 ++-
 common/mission_ack.go                               | 3 ++-
 common/mission_changed.go                           | 3 ++-
 common/mission_clear_all.go                         | 3 ++-
 common/mission_count.go                             | 3 ++-
 common/mission_current.go                           | 3 ++-
 common/mission_item.go                              | 3 ++-
 common/mission_item_int.go                          | 3 ++-
 common/mission_item_reached.go                      | 3 ++-
 common/mission_request.go                           | 3 ++-
 common/mission_request_int.go                       | 3 ++-
 common/mission_request_list.go                      | 3 ++-
 common/mission_request_partial_list.go              | 3 ++-
 common/mission_set_current.go                       | 3 ++-
 common/mission_write_partial_list.go                | 3 ++-
 common/mount_orientation.go                         | 3 ++-
 common/named_value_float.go                         | 3 ++-
 common/named_value_int.go                           | 3 ++-
 common/nav_controller_output.go                     | 3 ++-
 common/obstacle_distance.go                         | 3 ++-
 common/odometry.go                                  | 3 ++-
 common/onboard_computer_status.go                   | 3 ++-
 common/open_drone_id_authentication.go              | 3 ++-
 common/open_drone_id_basic_id.go                    | 3 ++-
 common/open_drone_id_location.go                    | 3 ++-
 common/open_drone_id_message_pack.go                | 3 ++-
 common/open_drone_id_operator_id.go                 | 3 ++-
 common/open_drone_id_self_id.go                     | 3 ++-
 common/open_drone_id_system.go                      | 3 ++-
 common/optical_flow.go                              | 3 ++-
 common/optical_flow_rad.go                          | 3 ++-
 common/orbit_execution_status.go                    | 3 ++-
 common/param_ext_ack.go                             | 3 ++-
 common/param_ext_request_list.go                    | 3 ++-
 common/param_ext_request_read.go                    | 3 ++-
 common/param_ext_set.go                             | 3 ++-
 common/param_ext_value.go                           | 3 ++-
 common/param_map_rc.go                              | 3 ++-
 common/param_request_list.go                        | 3 ++-
 common/param_request_read.go                        | 3 ++-
 common/param_set.go                                 | 3 ++-
 common/param_value.go                               | 3 ++-
 common/ping.go                                      | 3 ++-
 common/play_tune.go                                 | 3 ++-
 common/play_tune_v2.go                              | 3 ++-
 common/position_target_global_int.go                | 3 ++-
 common/position_target_local_ned.go                 | 3 ++-
 common/power_status.go                              | 3 ++-
 common/protocol_version.go                          | 3 ++-
 common/radio_status.go                              | 3 ++-
 common/raw_imu.go                                   | 3 ++-
 common/raw_pressure.go                              | 3 ++-
 common/rc_channels.go                               | 3 ++-
 common/rc_channels_override.go                      | 3 ++-
 common/rc_channels_raw.go                           | 3 ++-
 common/rc_channels_scaled.go                        | 3 ++-
 common/request_data_stream.go                       | 3 ++-
 common/resource_request.go                          | 3 ++-
 common/safety_allowed_area.go                       | 3 ++-
 common/safety_set_allowed_area.go                   | 3 ++-
 common/scaled_imu.go                                | 3 ++-
 common/scaled_imu2.go                               | 3 ++-
 common/scaled_imu3.go                               | 3 ++-
 common/scaled_pressure.go                           | 3 ++-
 common/scaled_pressure2.go                          | 3 ++-
 common/scaled_pressure3.go                          | 3 ++-
 common/serial_control.go                            | 3 ++-
 common/servo_output_raw.go                          | 3 ++-
 common/set_actuator_control_target.go               | 3 ++-
 common/set_attitude_target.go                       | 3 ++-
 common/set_gps_global_origin.go                     | 3 ++-
 common/set_home_position.go                         | 3 ++-
 common/set_mode.go                                  | 3 ++-
 common/set_position_target_global_int.go            | 3 ++-
 common/set_position_target_local_ned.go             | 3 ++-
 common/setup_signing.go                             | 3 ++-
 common/sim_state.go                                 | 3 ++-
 common/smart_battery_info.go                        | 3 ++-
 common/smart_battery_status.go                      | 3 ++-
 common/statustext.go                                | 3 ++-
 common/statustext_long.go                           | 3 ++-
 common/storage_information.go                       | 3 ++-
 common/supported_tunes.go                           | 3 ++-
 common/sys_status.go                                | 3 ++-
 common/system_time.go                               | 3 ++-
 common/terrain_check.go                             | 3 ++-
 common/terrain_data.go                              | 3 ++-
 common/terrain_report.go                            | 3 ++-
 common/terrain_request.go                           | 3 ++-
 common/time_estimate_to_target.go                   | 3 ++-
 common/timesync.go                                  | 3 ++-
 common/trajectory_representation_bezier.go          | 3 ++-
 common/trajectory_representation_waypoints.go       | 3 ++-
 common/tunnel.go                                    | 3 ++-
 common/uavcan_node_info.go                          | 3 ++-
 common/uavcan_node_status.go                        | 3 ++-
 common/utm_global_position.go                       | 3 ++-
 common/v2_extension.go                              | 3 ++-
 common/vfr_hud.go                                   | 3 ++-
 common/vibration.go                                 | 3 ++-
 common/vicon_position_estimate.go                   | 3 ++-
 common/video_stream_information.go                  | 3 ++-
 common/video_stream_status.go                       | 3 ++-
 common/vision_position_estimate.go                  | 3 ++-
 common/vision_speed_estimate.go                     | 3 ++-
 common/wheel_distance.go                            | 3 ++-
 common/wifi_config_ap.go                            | 3 ++-
 common/wind_cov.go                                  | 3 ++-
 icarous/icarous_heartbeat.go                        | 3 ++-
 icarous/icarous_kinematic_bands.go                  | 3 ++-
 matrixpilot/airspeeds.go                            | 3 ++-
 matrixpilot/altitudes.go                            | 3 ++-
 matrixpilot/flexifunction_buffer_function.go        | 3 ++-
 matrixpilot/flexifunction_buffer_function_ack.go    | 3 ++-
 matrixpilot/flexifunction_command.go                | 3 ++-
 matrixpilot/flexifunction_command_ack.go            | 3 ++-
 matrixpilot/flexifunction_directory.go              | 3 ++-
 matrixpilot/flexifunction_directory_ack.go          | 3 ++-
 matrixpilot/flexifunction_read_req.go               | 3 ++-
 matrixpilot/flexifunction_set.go                    | 3 ++-
 matrixpilot/serial_udb_extra_f13.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f14.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f15.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f16.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f17.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f18.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f19.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f20.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f21.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f22.go                 | 3 ++-
 matrixpilot/serial_udb_extra_f2_a.go                | 3 ++-
 matrixpilot/serial_udb_extra_f2_b.go                | 3 ++-
 matrixpilot/serial_udb_extra_f4.go                  | 3 ++-
 matrixpilot/serial_udb_extra_f5.go                  | 3 ++-
 matrixpilot/serial_udb_extra_f6.go                  | 3 ++-
 matrixpilot/serial_udb_extra_f7.go                  | 3 ++-
 matrixpilot/serial_udb_extra_f8.go                  | 3 ++-
 paparazzi/script_count.go                           | 3 ++-
 paparazzi/script_current.go                         | 3 ++-
 paparazzi/script_item.go                            | 3 ++-
 paparazzi/script_request.go                         | 3 ++-
 paparazzi/script_request_list.go                    | 3 ++-
 slugs/boot.go                                       | 3 ++-
 slugs/control_surface.go                            | 3 ++-
 slugs/cpu_load.go                                   | 3 ++-
 slugs/ctrl_srfc_pt.go                               | 3 ++-
 slugs/data_log.go                                   | 3 ++-
 slugs/diagnostic.go                                 | 3 ++-
 slugs/gps_date_time.go                              | 3 ++-
 slugs/isr_location.go                               | 3 ++-
 slugs/mid_lvl_cmds.go                               | 3 ++-
 slugs/novatel_diag.go                               | 3 ++-
 slugs/ptz_status.go                                 | 3 ++-
 slugs/sensor_bias.go                                | 3 ++-
 slugs/sensor_diag.go                                | 3 ++-
 slugs/slugs_camera_order.go                         | 3 ++-
 slugs/slugs_configuration_camera.go                 | 3 ++-
 slugs/slugs_mobile_location.go                      | 3 ++-
 slugs/slugs_navigation.go                           | 3 ++-
 slugs/status_gps.go                                 | 3 ++-
 slugs/uav_status.go                                 | 3 ++-
 slugs/volt_sensor.go                                | 3 ++-
 uAvionix/uavionix_adsb_out_cfg.go                   | 3 ++-
 uAvionix/uavionix_adsb_out_dynamic.go               | 3 ++-
 uAvionix/uavionix_adsb_transceiver_health_report.go | 3 ++-
 ualberta/nav_filter_bias.go                         | 3 ++-
 ualberta/radio_calibration.go                       | 3 ++-
 ualberta/ualberta_sys_status.go                     | 3 ++-
 331 files changed, 662 insertions(+), 331 deletions(-)

diff --git a/ardupilotmega/adap_tuning.go b/ardupilotmega/adap_tuning.go
index 929837d..d5519dc 100644
--- a/ardupilotmega/adap_tuning.go
+++ b/ardupilotmega/adap_tuning.go
@@ -178,7 +178,8 @@ func (m *AdapTuning) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ahrs.go b/ardupilotmega/ahrs.go
index 0ee6a9e..bc8700b 100644
--- a/ardupilotmega/ahrs.go
+++ b/ardupilotmega/ahrs.go
@@ -154,7 +154,8 @@ func (m *AHRS) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ahrs2.go b/ardupilotmega/ahrs2.go
index 5a694a5..a37972c 100644
--- a/ardupilotmega/ahrs2.go
+++ b/ardupilotmega/ahrs2.go
@@ -150,7 +150,8 @@ func (m *AHRS2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ahrs3.go b/ardupilotmega/ahrs3.go
index fe1d6bd..18b6eb4 100644
--- a/ardupilotmega/ahrs3.go
+++ b/ardupilotmega/ahrs3.go
@@ -166,7 +166,8 @@ func (m *AHRS3) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/airspeed_autocal.go b/ardupilotmega/airspeed_autocal.go
index 3fff0f1..3b80875 100644
--- a/ardupilotmega/airspeed_autocal.go
+++ b/ardupilotmega/airspeed_autocal.go
@@ -174,7 +174,8 @@ func (m *AirspeedAutocal) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/aoa_ssa.go b/ardupilotmega/aoa_ssa.go
index 1f08802..4cddd99 100644
--- a/ardupilotmega/aoa_ssa.go
+++ b/ardupilotmega/aoa_ssa.go
@@ -138,7 +138,8 @@ func (m *AoaSsa) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ap_adc.go b/ardupilotmega/ap_adc.go
index 1fd2dc8..42e8c57 100644
--- a/ardupilotmega/ap_adc.go
+++ b/ardupilotmega/ap_adc.go
@@ -150,7 +150,8 @@ func (m *ApAdc) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/autopilot_version_request.go b/ardupilotmega/autopilot_version_request.go
index 8955f61..2306bd9 100644
--- a/ardupilotmega/autopilot_version_request.go
+++ b/ardupilotmega/autopilot_version_request.go
@@ -134,7 +134,8 @@ func (m *AutopilotVersionRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/battery2.go b/ardupilotmega/battery2.go
index 40dbd43..a393570 100644
--- a/ardupilotmega/battery2.go
+++ b/ardupilotmega/battery2.go
@@ -134,7 +134,8 @@ func (m *Battery2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/camera_feedback.go b/ardupilotmega/camera_feedback.go
index 0e1fe6a..496b750 100644
--- a/ardupilotmega/camera_feedback.go
+++ b/ardupilotmega/camera_feedback.go
@@ -209,7 +209,8 @@ func (m *CameraFeedback) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/camera_status.go b/ardupilotmega/camera_status.go
index e9fb82b..d998aeb 100644
--- a/ardupilotmega/camera_status.go
+++ b/ardupilotmega/camera_status.go
@@ -162,7 +162,8 @@ func (m *CameraStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/compassmot_status.go b/ardupilotmega/compassmot_status.go
index 379ec9d..cee5fc1 100644
--- a/ardupilotmega/compassmot_status.go
+++ b/ardupilotmega/compassmot_status.go
@@ -150,7 +150,8 @@ func (m *CompassmotStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data16.go b/ardupilotmega/data16.go
index 1aad1fd..385eb56 100644
--- a/ardupilotmega/data16.go
+++ b/ardupilotmega/data16.go
@@ -138,7 +138,8 @@ func (m *Data16) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data32.go b/ardupilotmega/data32.go
index 15c081a..737d361 100644
--- a/ardupilotmega/data32.go
+++ b/ardupilotmega/data32.go
@@ -138,7 +138,8 @@ func (m *Data32) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data64.go b/ardupilotmega/data64.go
index 79b3f0d..8175535 100644
--- a/ardupilotmega/data64.go
+++ b/ardupilotmega/data64.go
@@ -138,7 +138,8 @@ func (m *Data64) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/data96.go b/ardupilotmega/data96.go
index 3863788..2bd7929 100644
--- a/ardupilotmega/data96.go
+++ b/ardupilotmega/data96.go
@@ -138,7 +138,8 @@ func (m *Data96) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/deepstall.go b/ardupilotmega/deepstall.go
index 99a5d0a..af10a6a 100644
--- a/ardupilotmega/deepstall.go
+++ b/ardupilotmega/deepstall.go
@@ -166,7 +166,8 @@ func (m *Deepstall) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_read.go b/ardupilotmega/device_op_read.go
index f5c4be7..c2d3f03 100644
--- a/ardupilotmega/device_op_read.go
+++ b/ardupilotmega/device_op_read.go
@@ -187,7 +187,8 @@ func (m *DeviceOpRead) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_read_reply.go b/ardupilotmega/device_op_read_reply.go
index 9f207e3..361994d 100644
--- a/ardupilotmega/device_op_read_reply.go
+++ b/ardupilotmega/device_op_read_reply.go
@@ -146,7 +146,8 @@ func (m *DeviceOpReadReply) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_write.go b/ardupilotmega/device_op_write.go
index 5fa60ff..bd5c108 100644
--- a/ardupilotmega/device_op_write.go
+++ b/ardupilotmega/device_op_write.go
@@ -191,7 +191,8 @@ func (m *DeviceOpWrite) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/device_op_write_reply.go b/ardupilotmega/device_op_write_reply.go
index acd3606..3653640 100644
--- a/ardupilotmega/device_op_write_reply.go
+++ b/ardupilotmega/device_op_write_reply.go
@@ -134,7 +134,8 @@ func (m *DeviceOpWriteReply) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/digicam_configure.go b/ardupilotmega/digicam_configure.go
index b2235d5..1add1c5 100644
--- a/ardupilotmega/digicam_configure.go
+++ b/ardupilotmega/digicam_configure.go
@@ -170,7 +170,8 @@ func (m *DigicamConfigure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/digicam_control.go b/ardupilotmega/digicam_control.go
index 656afa1..0409abc 100644
--- a/ardupilotmega/digicam_control.go
+++ b/ardupilotmega/digicam_control.go
@@ -166,7 +166,8 @@ func (m *DigicamControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/efi_status.go b/ardupilotmega/efi_status.go
index f9e64b9..17155f9 100644
--- a/ardupilotmega/efi_status.go
+++ b/ardupilotmega/efi_status.go
@@ -182,7 +182,8 @@ func (m *EfiStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/ekf_status_report.go b/ardupilotmega/ekf_status_report.go
index 115dfc2..ba78df2 100644
--- a/ardupilotmega/ekf_status_report.go
+++ b/ardupilotmega/ekf_status_report.go
@@ -174,7 +174,8 @@ func (m *EKFStatusReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/esc_telemetry_1_to_4.go b/ardupilotmega/esc_telemetry_1_to_4.go
index 41734c3..5462597 100644
--- a/ardupilotmega/esc_telemetry_1_to_4.go
+++ b/ardupilotmega/esc_telemetry_1_to_4.go
@@ -150,7 +150,8 @@ func (m *EscTelemetry1To4) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/esc_telemetry_5_to_8.go b/ardupilotmega/esc_telemetry_5_to_8.go
index 4a34c84..751a018 100644
--- a/ardupilotmega/esc_telemetry_5_to_8.go
+++ b/ardupilotmega/esc_telemetry_5_to_8.go
@@ -150,7 +150,8 @@ func (m *EscTelemetry5To8) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/esc_telemetry_9_to_12.go b/ardupilotmega/esc_telemetry_9_to_12.go
index d22283c..10c28e3 100644
--- a/ardupilotmega/esc_telemetry_9_to_12.go
+++ b/ardupilotmega/esc_telemetry_9_to_12.go
@@ -150,7 +150,8 @@ func (m *EscTelemetry9To12) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/fence_fetch_point.go b/ardupilotmega/fence_fetch_point.go
index 30e323e..4f5ace8 100644
--- a/ardupilotmega/fence_fetch_point.go
+++ b/ardupilotmega/fence_fetch_point.go
@@ -138,7 +138,8 @@ func (m *FenceFetchPoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/fence_point.go b/ardupilotmega/fence_point.go
index 8a42f44..a24cab0 100644
--- a/ardupilotmega/fence_point.go
+++ b/ardupilotmega/fence_point.go
@@ -150,7 +150,8 @@ func (m *FencePoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/fence_status.go b/ardupilotmega/fence_status.go
index aecd135..1455709 100644
--- a/ardupilotmega/fence_status.go
+++ b/ardupilotmega/fence_status.go
@@ -142,7 +142,8 @@ func (m *FenceStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gimbal_control.go b/ardupilotmega/gimbal_control.go
index c251f4e..fa19591 100644
--- a/ardupilotmega/gimbal_control.go
+++ b/ardupilotmega/gimbal_control.go
@@ -146,7 +146,8 @@ func (m *GimbalControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gimbal_report.go b/ardupilotmega/gimbal_report.go
index 6597af2..ddc87ca 100644
--- a/ardupilotmega/gimbal_report.go
+++ b/ardupilotmega/gimbal_report.go
@@ -174,7 +174,8 @@ func (m *GimbalReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gimbal_torque_cmd_report.go b/ardupilotmega/gimbal_torque_cmd_report.go
index 49a40ca..6a66405 100644
--- a/ardupilotmega/gimbal_torque_cmd_report.go
+++ b/ardupilotmega/gimbal_torque_cmd_report.go
@@ -146,7 +146,8 @@ func (m *GimbalTorqueCmdReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_get_request.go b/ardupilotmega/gopro_get_request.go
index 1070f1e..964d7fe 100644
--- a/ardupilotmega/gopro_get_request.go
+++ b/ardupilotmega/gopro_get_request.go
@@ -138,7 +138,8 @@ func (m *GoproGetRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_get_response.go b/ardupilotmega/gopro_get_response.go
index b9cdb1b..80344cd 100644
--- a/ardupilotmega/gopro_get_response.go
+++ b/ardupilotmega/gopro_get_response.go
@@ -138,7 +138,8 @@ func (m *GoproGetResponse) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_heartbeat.go b/ardupilotmega/gopro_heartbeat.go
index c5a2ce0..30a88f6 100644
--- a/ardupilotmega/gopro_heartbeat.go
+++ b/ardupilotmega/gopro_heartbeat.go
@@ -138,7 +138,8 @@ func (m *GoproHeartbeat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_set_request.go b/ardupilotmega/gopro_set_request.go
index 4a3ca8d..0bd52e8 100644
--- a/ardupilotmega/gopro_set_request.go
+++ b/ardupilotmega/gopro_set_request.go
@@ -142,7 +142,8 @@ func (m *GoproSetRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/gopro_set_response.go b/ardupilotmega/gopro_set_response.go
index 0e54e7b..c878cfc 100644
--- a/ardupilotmega/gopro_set_response.go
+++ b/ardupilotmega/gopro_set_response.go
@@ -134,7 +134,8 @@ func (m *GoproSetResponse) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/hwstatus.go b/ardupilotmega/hwstatus.go
index 471c99f..7228bcf 100644
--- a/ardupilotmega/hwstatus.go
+++ b/ardupilotmega/hwstatus.go
@@ -134,7 +134,8 @@ func (m *HWstatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/led_control.go b/ardupilotmega/led_control.go
index 518ef80..2c1a56c 100644
--- a/ardupilotmega/led_control.go
+++ b/ardupilotmega/led_control.go
@@ -150,7 +150,8 @@ func (m *LedControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/limits_status.go b/ardupilotmega/limits_status.go
index 46513cd..a8ee15e 100644
--- a/ardupilotmega/limits_status.go
+++ b/ardupilotmega/limits_status.go
@@ -162,7 +162,8 @@ func (m *LimitsStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mag_cal_progress.go b/ardupilotmega/mag_cal_progress.go
index b25589c..f94ac85 100644
--- a/ardupilotmega/mag_cal_progress.go
+++ b/ardupilotmega/mag_cal_progress.go
@@ -162,7 +162,8 @@ func (m *MagCalProgress) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mag_cal_report.go b/ardupilotmega/mag_cal_report.go
index 35c8bdf..dbf7974 100644
--- a/ardupilotmega/mag_cal_report.go
+++ b/ardupilotmega/mag_cal_report.go
@@ -226,7 +226,8 @@ func (m *MagCalReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/meminfo.go b/ardupilotmega/meminfo.go
index 58def65..f88e3ca 100644
--- a/ardupilotmega/meminfo.go
+++ b/ardupilotmega/meminfo.go
@@ -154,7 +154,8 @@ func (m *MemInfo) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mount_configure.go b/ardupilotmega/mount_configure.go
index 15af8e7..a4c9b80 100644
--- a/ardupilotmega/mount_configure.go
+++ b/ardupilotmega/mount_configure.go
@@ -150,7 +150,8 @@ func (m *MountConfigure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mount_control.go b/ardupilotmega/mount_control.go
index d50abf4..b97552e 100644
--- a/ardupilotmega/mount_control.go
+++ b/ardupilotmega/mount_control.go
@@ -150,7 +150,8 @@ func (m *MountControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/mount_status.go b/ardupilotmega/mount_status.go
index 4071c8f..a89f8a6 100644
--- a/ardupilotmega/mount_status.go
+++ b/ardupilotmega/mount_status.go
@@ -146,7 +146,8 @@ func (m *MountStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/pid_tuning.go b/ardupilotmega/pid_tuning.go
index 271bf5d..b2dc4b8 100644
--- a/ardupilotmega/pid_tuning.go
+++ b/ardupilotmega/pid_tuning.go
@@ -154,7 +154,8 @@ func (m *PIDTuning) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/radio.go b/ardupilotmega/radio.go
index d7bea1a..cd6ebf3 100644
--- a/ardupilotmega/radio.go
+++ b/ardupilotmega/radio.go
@@ -154,7 +154,8 @@ func (m *Radio) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rally_fetch_point.go b/ardupilotmega/rally_fetch_point.go
index 0c70fa2..0ed6ff4 100644
--- a/ardupilotmega/rally_fetch_point.go
+++ b/ardupilotmega/rally_fetch_point.go
@@ -138,7 +138,8 @@ func (m *RallyFetchPoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rally_point.go b/ardupilotmega/rally_point.go
index 71a7cc1..ce56b8b 100644
--- a/ardupilotmega/rally_point.go
+++ b/ardupilotmega/rally_point.go
@@ -166,7 +166,8 @@ func (m *RallyPoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rangefinder.go b/ardupilotmega/rangefinder.go
index 561810b..a677da2 100644
--- a/ardupilotmega/rangefinder.go
+++ b/ardupilotmega/rangefinder.go
@@ -134,7 +134,8 @@ func (m *Rangefinder) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/remote_log_block_status.go b/ardupilotmega/remote_log_block_status.go
index 398720c..5066d74 100644
--- a/ardupilotmega/remote_log_block_status.go
+++ b/ardupilotmega/remote_log_block_status.go
@@ -142,7 +142,8 @@ func (m *RemoteLogBlockStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/remote_log_data_block.go b/ardupilotmega/remote_log_data_block.go
index 40e4022..0d9c400 100644
--- a/ardupilotmega/remote_log_data_block.go
+++ b/ardupilotmega/remote_log_data_block.go
@@ -142,7 +142,8 @@ func (m *RemoteLogDataBlock) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/rpm.go b/ardupilotmega/rpm.go
index 72816d1..4fb5a24 100644
--- a/ardupilotmega/rpm.go
+++ b/ardupilotmega/rpm.go
@@ -134,7 +134,8 @@ func (m *Rpm) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/sensor_offsets.go b/ardupilotmega/sensor_offsets.go
index c42230f..45e176d 100644
--- a/ardupilotmega/sensor_offsets.go
+++ b/ardupilotmega/sensor_offsets.go
@@ -174,7 +174,8 @@ func (m *SensorOffsets) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/set_mag_offsets.go b/ardupilotmega/set_mag_offsets.go
index 6cfd63b..22c8b1b 100644
--- a/ardupilotmega/set_mag_offsets.go
+++ b/ardupilotmega/set_mag_offsets.go
@@ -146,7 +146,8 @@ func (m *SetMagOffsets) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/simstate.go b/ardupilotmega/simstate.go
index 6db2580..2dce698 100644
--- a/ardupilotmega/simstate.go
+++ b/ardupilotmega/simstate.go
@@ -170,7 +170,8 @@ func (m *SimState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/vision_position_delta.go b/ardupilotmega/vision_position_delta.go
index 5bdec35..b83a499 100644
--- a/ardupilotmega/vision_position_delta.go
+++ b/ardupilotmega/vision_position_delta.go
@@ -146,7 +146,8 @@ func (m *VisionPositionDelta) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ardupilotmega/wind.go b/ardupilotmega/wind.go
index 836b2b3..56043ea 100644
--- a/ardupilotmega/wind.go
+++ b/ardupilotmega/wind.go
@@ -138,7 +138,8 @@ func (m *Wind) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/asl_obctrl.go b/asluav/asl_obctrl.go
index 811069e..cb091c9 100644
--- a/asluav/asl_obctrl.go
+++ b/asluav/asl_obctrl.go
@@ -158,7 +158,8 @@ func (m *AslObctrl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/aslctrl_data.go b/asluav/aslctrl_data.go
index e687046..686a9b1 100644
--- a/asluav/aslctrl_data.go
+++ b/asluav/aslctrl_data.go
@@ -226,7 +226,8 @@ func (m *AslctrlData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/aslctrl_debug.go b/asluav/aslctrl_debug.go
index df6d40e..d005e2f 100644
--- a/asluav/aslctrl_debug.go
+++ b/asluav/aslctrl_debug.go
@@ -170,7 +170,8 @@ func (m *AslctrlDebug) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/asluav_status.go b/asluav/asluav_status.go
index 9629cc7..a9c3e5e 100644
--- a/asluav/asluav_status.go
+++ b/asluav/asluav_status.go
@@ -142,7 +142,8 @@ func (m *AsluavStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/command_int_stamped.go b/asluav/command_int_stamped.go
index b99d6dd..0924d20 100644
--- a/asluav/command_int_stamped.go
+++ b/asluav/command_int_stamped.go
@@ -186,7 +186,8 @@ func (m *CommandIntStamped) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/command_long_stamped.go b/asluav/command_long_stamped.go
index ee41823..5d602a0 100644
--- a/asluav/command_long_stamped.go
+++ b/asluav/command_long_stamped.go
@@ -178,7 +178,8 @@ func (m *CommandLongStamped) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/ekf_ext.go b/asluav/ekf_ext.go
index 35c5ca7..c603085 100644
--- a/asluav/ekf_ext.go
+++ b/asluav/ekf_ext.go
@@ -154,7 +154,8 @@ func (m *EKFExt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/fw_soaring_data.go b/asluav/fw_soaring_data.go
index 2c489cf..29f84c5 100644
--- a/asluav/fw_soaring_data.go
+++ b/asluav/fw_soaring_data.go
@@ -226,7 +226,8 @@ func (m *FwSoaringData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/gsm_link_status.go b/asluav/gsm_link_status.go
index 1f3dbe4..30f61f7 100644
--- a/asluav/gsm_link_status.go
+++ b/asluav/gsm_link_status.go
@@ -154,7 +154,8 @@ func (m *GsmLinkStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/satcom_link_status.go b/asluav/satcom_link_status.go
index 7e77426..0f4ff64 100644
--- a/asluav/satcom_link_status.go
+++ b/asluav/satcom_link_status.go
@@ -158,7 +158,8 @@ func (m *SatcomLinkStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_atmos.go b/asluav/sens_atmos.go
index 8be71ff..99bcc66 100644
--- a/asluav/sens_atmos.go
+++ b/asluav/sens_atmos.go
@@ -138,7 +138,8 @@ func (m *SensAtmos) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_batmon.go b/asluav/sens_batmon.go
index 4a86d45..24473ff 100644
--- a/asluav/sens_batmon.go
+++ b/asluav/sens_batmon.go
@@ -186,7 +186,8 @@ func (m *SensBatmon) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_mppt.go b/asluav/sens_mppt.go
index 6d9ca6c..0b6c287 100644
--- a/asluav/sens_mppt.go
+++ b/asluav/sens_mppt.go
@@ -178,7 +178,8 @@ func (m *SensMppt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_power.go b/asluav/sens_power.go
index 6511f98..a6aabfa 100644
--- a/asluav/sens_power.go
+++ b/asluav/sens_power.go
@@ -142,7 +142,8 @@ func (m *SensPower) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sens_power_board.go b/asluav/sens_power_board.go
index 9bc13ca..16a86a5 100644
--- a/asluav/sens_power_board.go
+++ b/asluav/sens_power_board.go
@@ -174,7 +174,8 @@ func (m *SensPowerBoard) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/asluav/sensorpod_status.go b/asluav/sensorpod_status.go
index 038089c..3c224db 100644
--- a/asluav/sensorpod_status.go
+++ b/asluav/sensorpod_status.go
@@ -158,7 +158,8 @@ func (m *SensorpodStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/autoquad/aq_esc_telemetry.go b/autoquad/aq_esc_telemetry.go
index 14fffc8..be44ce7 100644
--- a/autoquad/aq_esc_telemetry.go
+++ b/autoquad/aq_esc_telemetry.go
@@ -173,7 +173,8 @@ func (m *AqEscTelemetry) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/autoquad/aq_telemetry_f.go b/autoquad/aq_telemetry_f.go
index 13f1a82..5114524 100644
--- a/autoquad/aq_telemetry_f.go
+++ b/autoquad/aq_telemetry_f.go
@@ -210,7 +210,8 @@ func (m *AqTelemetryF) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/actuator_control_target.go b/common/actuator_control_target.go
index dd5e6e0..e5a9626 100644
--- a/common/actuator_control_target.go
+++ b/common/actuator_control_target.go
@@ -138,7 +138,8 @@ func (m *ActuatorControlTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/actuator_output_status.go b/common/actuator_output_status.go
index bb8ee9e..8200d6a 100644
--- a/common/actuator_output_status.go
+++ b/common/actuator_output_status.go
@@ -138,7 +138,8 @@ func (m *ActuatorOutputStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/adsb_vehicle.go b/common/adsb_vehicle.go
index b7dce27..539bbca 100644
--- a/common/adsb_vehicle.go
+++ b/common/adsb_vehicle.go
@@ -203,7 +203,8 @@ func (m *AdsbVehicle) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/ais_vessel.go b/common/ais_vessel.go
index 0cac94d..7f13144 100644
--- a/common/ais_vessel.go
+++ b/common/ais_vessel.go
@@ -243,7 +243,8 @@ func (m *AisVessel) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/altitude.go b/common/altitude.go
index 751839c..90a31d2 100644
--- a/common/altitude.go
+++ b/common/altitude.go
@@ -154,7 +154,8 @@ func (m *Altitude) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/att_pos_mocap.go b/common/att_pos_mocap.go
index cbf2341..3999254 100644
--- a/common/att_pos_mocap.go
+++ b/common/att_pos_mocap.go
@@ -169,7 +169,8 @@ func (m *AttPosMocap) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude.go b/common/attitude.go
index 0f1de81..3a56077 100644
--- a/common/attitude.go
+++ b/common/attitude.go
@@ -154,7 +154,8 @@ func (m *Attitude) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude_quaternion.go b/common/attitude_quaternion.go
index 2058c73..d7d8073 100644
--- a/common/attitude_quaternion.go
+++ b/common/attitude_quaternion.go
@@ -184,7 +184,8 @@ func (m *AttitudeQuaternion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude_quaternion_cov.go b/common/attitude_quaternion_cov.go
index 88887f3..069b380 100644
--- a/common/attitude_quaternion_cov.go
+++ b/common/attitude_quaternion_cov.go
@@ -150,7 +150,8 @@ func (m *AttitudeQuaternionCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/attitude_target.go b/common/attitude_target.go
index b6b7ad0..0dd4f79 100644
--- a/common/attitude_target.go
+++ b/common/attitude_target.go
@@ -154,7 +154,8 @@ func (m *AttitudeTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/auth_key.go b/common/auth_key.go
index 671753c..3753989 100644
--- a/common/auth_key.go
+++ b/common/auth_key.go
@@ -155,7 +155,8 @@ func (m *AuthKey) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/autopilot_version.go b/common/autopilot_version.go
index 23fc0ca..90b7edc 100644
--- a/common/autopilot_version.go
+++ b/common/autopilot_version.go
@@ -199,7 +199,8 @@ func (m *AutopilotVersion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/battery_status.go b/common/battery_status.go
index 5fcd3ea..26c689b 100644
--- a/common/battery_status.go
+++ b/common/battery_status.go
@@ -193,7 +193,8 @@ func (m *BatteryStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/button_change.go b/common/button_change.go
index 342b08b..751b435 100644
--- a/common/button_change.go
+++ b/common/button_change.go
@@ -138,7 +138,8 @@ func (m *ButtonChange) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_capture_status.go b/common/camera_capture_status.go
index e86dced..00a72b3 100644
--- a/common/camera_capture_status.go
+++ b/common/camera_capture_status.go
@@ -150,7 +150,8 @@ func (m *CameraCaptureStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_image_captured.go b/common/camera_image_captured.go
index 31c143d..bb835eb 100644
--- a/common/camera_image_captured.go
+++ b/common/camera_image_captured.go
@@ -195,7 +195,8 @@ func (m *CameraImageCaptured) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_information.go b/common/camera_information.go
index 764c0c8..6887892 100644
--- a/common/camera_information.go
+++ b/common/camera_information.go
@@ -203,7 +203,8 @@ func (m *CameraInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_settings.go b/common/camera_settings.go
index 2f31056..4b63744 100644
--- a/common/camera_settings.go
+++ b/common/camera_settings.go
@@ -158,7 +158,8 @@ func (m *CameraSettings) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/camera_trigger.go b/common/camera_trigger.go
index 9c6657f..1b24750 100644
--- a/common/camera_trigger.go
+++ b/common/camera_trigger.go
@@ -134,7 +134,8 @@ func (m *CameraTrigger) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/cellular_status.go b/common/cellular_status.go
index fc59d18..1d551e7 100644
--- a/common/cellular_status.go
+++ b/common/cellular_status.go
@@ -154,7 +154,8 @@ func (m *CellularStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/change_operator_control.go b/common/change_operator_control.go
index 75eeaf1..df9b7aa 100644
--- a/common/change_operator_control.go
+++ b/common/change_operator_control.go
@@ -167,7 +167,8 @@ func (m *ChangeOperatorControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/change_operator_control_ack.go b/common/change_operator_control_ack.go
index 189c050..dea6fd3 100644
--- a/common/change_operator_control_ack.go
+++ b/common/change_operator_control_ack.go
@@ -138,7 +138,8 @@ func (m *ChangeOperatorControlAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/collision.go b/common/collision.go
index c48ef7f..c78e367 100644
--- a/common/collision.go
+++ b/common/collision.go
@@ -154,7 +154,8 @@ func (m *Collision) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/command_ack.go b/common/command_ack.go
index 17d5585..6067764 100644
--- a/common/command_ack.go
+++ b/common/command_ack.go
@@ -166,7 +166,8 @@ func (m *CommandAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/command_int.go b/common/command_int.go
index f50843e..1cbbf06 100644
--- a/common/command_int.go
+++ b/common/command_int.go
@@ -178,7 +178,8 @@ func (m *CommandInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/command_long.go b/common/command_long.go
index 651ca74..d09d715 100644
--- a/common/command_long.go
+++ b/common/command_long.go
@@ -170,7 +170,8 @@ func (m *CommandLong) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/component_information.go b/common/component_information.go
index c336a94..d77cda8 100644
--- a/common/component_information.go
+++ b/common/component_information.go
@@ -183,7 +183,8 @@ func (m *ComponentInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/control_system_state.go b/common/control_system_state.go
index 6b8ad24..e062f57 100644
--- a/common/control_system_state.go
+++ b/common/control_system_state.go
@@ -194,7 +194,8 @@ func (m *ControlSystemState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/data_stream.go b/common/data_stream.go
index d8a0cec..c3b58a0 100644
--- a/common/data_stream.go
+++ b/common/data_stream.go
@@ -138,7 +138,8 @@ func (m *DataStream) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/data_transmission_handshake.go b/common/data_transmission_handshake.go
index 81e7fd9..9c34dd8 100644
--- a/common/data_transmission_handshake.go
+++ b/common/data_transmission_handshake.go
@@ -154,7 +154,8 @@ func (m *DataTransmissionHandshake) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/debug.go b/common/debug.go
index c747e09..d909327 100644
--- a/common/debug.go
+++ b/common/debug.go
@@ -138,7 +138,8 @@ func (m *Debug) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/debug_float_array.go b/common/debug_float_array.go
index 34ff1b3..84c7701 100644
--- a/common/debug_float_array.go
+++ b/common/debug_float_array.go
@@ -184,7 +184,8 @@ func (m *DebugFloatArray) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/debug_vect.go b/common/debug_vect.go
index 8b2f4a6..9421bd6 100644
--- a/common/debug_vect.go
+++ b/common/debug_vect.go
@@ -171,7 +171,8 @@ func (m *DebugVect) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/distance_sensor.go b/common/distance_sensor.go
index 0ff76bc..832e75d 100644
--- a/common/distance_sensor.go
+++ b/common/distance_sensor.go
@@ -192,7 +192,8 @@ func (m *DistanceSensor) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/encapsulated_data.go b/common/encapsulated_data.go
index 301db09..89b7564 100644
--- a/common/encapsulated_data.go
+++ b/common/encapsulated_data.go
@@ -134,7 +134,8 @@ func (m *EncapsulatedData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/estimator_status.go b/common/estimator_status.go
index d915c02..7caa040 100644
--- a/common/estimator_status.go
+++ b/common/estimator_status.go
@@ -166,7 +166,8 @@ func (m *EstimatorStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/extended_sys_state.go b/common/extended_sys_state.go
index 4f02c4d..9634942 100644
--- a/common/extended_sys_state.go
+++ b/common/extended_sys_state.go
@@ -134,7 +134,8 @@ func (m *ExtendedSysState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/fence_status.go b/common/fence_status.go
index d936088..1b094a7 100644
--- a/common/fence_status.go
+++ b/common/fence_status.go
@@ -164,7 +164,8 @@ func (m *FenceStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/file_transfer_protocol.go b/common/file_transfer_protocol.go
index 443131c..8e5d7d8 100644
--- a/common/file_transfer_protocol.go
+++ b/common/file_transfer_protocol.go
@@ -142,7 +142,8 @@ func (m *FileTransferProtocol) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/flight_information.go b/common/flight_information.go
index 454bb30..a252aa6 100644
--- a/common/flight_information.go
+++ b/common/flight_information.go
@@ -142,7 +142,8 @@ func (m *FlightInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/follow_target.go b/common/follow_target.go
index f5b9b5e..0fda2da 100644
--- a/common/follow_target.go
+++ b/common/follow_target.go
@@ -170,7 +170,8 @@ func (m *FollowTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/global_position_int.go b/common/global_position_int.go
index e0e6ccc..a7d30c0 100644
--- a/common/global_position_int.go
+++ b/common/global_position_int.go
@@ -163,7 +163,8 @@ func (m *GlobalPositionInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/global_position_int_cov.go b/common/global_position_int_cov.go
index e74aa34..68085c8 100644
--- a/common/global_position_int_cov.go
+++ b/common/global_position_int_cov.go
@@ -166,7 +166,8 @@ func (m *GlobalPositionIntCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/global_vision_position_estimate.go b/common/global_vision_position_estimate.go
index 0bd623e..d6c8f8a 100644
--- a/common/global_vision_position_estimate.go
+++ b/common/global_vision_position_estimate.go
@@ -183,7 +183,8 @@ func (m *GlobalVisionPositionEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps2_raw.go b/common/gps2_raw.go
index 751a0af..d06051a 100644
--- a/common/gps2_raw.go
+++ b/common/gps2_raw.go
@@ -174,7 +174,8 @@ func (m *GPS2Raw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps2_rtk.go b/common/gps2_rtk.go
index 6b60606..e29eeaf 100644
--- a/common/gps2_rtk.go
+++ b/common/gps2_rtk.go
@@ -178,7 +178,8 @@ func (m *GPS2Rtk) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_global_origin.go b/common/gps_global_origin.go
index 7bc866f..57708b3 100644
--- a/common/gps_global_origin.go
+++ b/common/gps_global_origin.go
@@ -159,7 +159,8 @@ func (m *GPSGlobalOrigin) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_inject_data.go b/common/gps_inject_data.go
index 8f4249d..b782de3 100644
--- a/common/gps_inject_data.go
+++ b/common/gps_inject_data.go
@@ -142,7 +142,8 @@ func (m *GPSInjectData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_input.go b/common/gps_input.go
index 3ff46a1..a798f5d 100644
--- a/common/gps_input.go
+++ b/common/gps_input.go
@@ -234,7 +234,8 @@ func (m *GPSInput) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_raw_int.go b/common/gps_raw_int.go
index 83cdd18..63e142b 100644
--- a/common/gps_raw_int.go
+++ b/common/gps_raw_int.go
@@ -211,7 +211,8 @@ func (m *GPSRawInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_rtcm_data.go b/common/gps_rtcm_data.go
index ef359ad..349c11d 100644
--- a/common/gps_rtcm_data.go
+++ b/common/gps_rtcm_data.go
@@ -138,7 +138,8 @@ func (m *GPSRtcmData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_rtk.go b/common/gps_rtk.go
index 38a226b..7288f50 100644
--- a/common/gps_rtk.go
+++ b/common/gps_rtk.go
@@ -178,7 +178,8 @@ func (m *GPSRtk) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/gps_status.go b/common/gps_status.go
index 64a8e7e..b37e697 100644
--- a/common/gps_status.go
+++ b/common/gps_status.go
@@ -150,7 +150,8 @@ func (m *GPSStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/heartbeat.go b/common/heartbeat.go
index 0314d50..7c68ad0 100644
--- a/common/heartbeat.go
+++ b/common/heartbeat.go
@@ -150,7 +150,8 @@ func (m *Heartbeat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/high_latency.go b/common/high_latency.go
index 50f658b..cff8a68 100644
--- a/common/high_latency.go
+++ b/common/high_latency.go
@@ -222,7 +222,8 @@ func (m *HighLatency) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/high_latency2.go b/common/high_latency2.go
index a64a761..a2f6b67 100644
--- a/common/high_latency2.go
+++ b/common/high_latency2.go
@@ -234,7 +234,8 @@ func (m *HighLatency2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/highres_imu.go b/common/highres_imu.go
index 609a995..0a04874 100644
--- a/common/highres_imu.go
+++ b/common/highres_imu.go
@@ -219,7 +219,8 @@ func (m *HighresIMU) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_actuator_controls.go b/common/hil_actuator_controls.go
index 2fe7d5d..236b710 100644
--- a/common/hil_actuator_controls.go
+++ b/common/hil_actuator_controls.go
@@ -142,7 +142,8 @@ func (m *HilActuatorControls) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_controls.go b/common/hil_controls.go
index 7269b28..24093d4 100644
--- a/common/hil_controls.go
+++ b/common/hil_controls.go
@@ -170,7 +170,8 @@ func (m *HilControls) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_gps.go b/common/hil_gps.go
index 9e2d1fd..83b6eaa 100644
--- a/common/hil_gps.go
+++ b/common/hil_gps.go
@@ -179,7 +179,8 @@ func (m *HilGPS) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_optical_flow.go b/common/hil_optical_flow.go
index a7e6306..c435398 100644
--- a/common/hil_optical_flow.go
+++ b/common/hil_optical_flow.go
@@ -174,7 +174,8 @@ func (m *HilOpticalFlow) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_rc_inputs_raw.go b/common/hil_rc_inputs_raw.go
index d4afcdf..526a78a 100644
--- a/common/hil_rc_inputs_raw.go
+++ b/common/hil_rc_inputs_raw.go
@@ -182,7 +182,8 @@ func (m *HilRCInputsRaw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_sensor.go b/common/hil_sensor.go
index 628975b..3d124a7 100644
--- a/common/hil_sensor.go
+++ b/common/hil_sensor.go
@@ -186,7 +186,8 @@ func (m *HilSensor) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_state.go b/common/hil_state.go
index 9646f84..98ed089 100644
--- a/common/hil_state.go
+++ b/common/hil_state.go
@@ -190,7 +190,8 @@ func (m *HilState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/hil_state_quaternion.go b/common/hil_state_quaternion.go
index 51d346c..b97bc42 100644
--- a/common/hil_state_quaternion.go
+++ b/common/hil_state_quaternion.go
@@ -190,7 +190,8 @@ func (m *HilStateQuaternion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/home_position.go b/common/home_position.go
index 274e3c2..f2f2ac2 100644
--- a/common/home_position.go
+++ b/common/home_position.go
@@ -194,7 +194,8 @@ func (m *HomePosition) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/isbd_link_status.go b/common/isbd_link_status.go
index e89d892..5f481f6 100644
--- a/common/isbd_link_status.go
+++ b/common/isbd_link_status.go
@@ -158,7 +158,8 @@ func (m *IsbdLinkStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/landing_target.go b/common/landing_target.go
index ba1f8cf..dbe53a6 100644
--- a/common/landing_target.go
+++ b/common/landing_target.go
@@ -204,7 +204,8 @@ func (m *LandingTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/link_node_status.go b/common/link_node_status.go
index a3702ab..f795b00 100644
--- a/common/link_node_status.go
+++ b/common/link_node_status.go
@@ -170,7 +170,8 @@ func (m *LinkNodeStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/local_position_ned.go b/common/local_position_ned.go
index 7dc18c6..5a4dd3b 100644
--- a/common/local_position_ned.go
+++ b/common/local_position_ned.go
@@ -154,7 +154,8 @@ func (m *LocalPositionNed) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/local_position_ned_cov.go b/common/local_position_ned_cov.go
index 44aa87e..855d7cd 100644
--- a/common/local_position_ned_cov.go
+++ b/common/local_position_ned_cov.go
@@ -174,7 +174,8 @@ func (m *LocalPositionNedCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/local_position_ned_system_global_offset.go b/common/local_position_ned_system_global_offset.go
index bda8bb7..1505041 100644
--- a/common/local_position_ned_system_global_offset.go
+++ b/common/local_position_ned_system_global_offset.go
@@ -154,7 +154,8 @@ func (m *LocalPositionNedSystemGlobalOffset) Read(frame mavlink2.Frame) (err err
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_data.go b/common/log_data.go
index 42489ef..c5ec6b5 100644
--- a/common/log_data.go
+++ b/common/log_data.go
@@ -142,7 +142,8 @@ func (m *LogData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_entry.go b/common/log_entry.go
index 7d3ce26..05c6e44 100644
--- a/common/log_entry.go
+++ b/common/log_entry.go
@@ -146,7 +146,8 @@ func (m *LogEntry) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_erase.go b/common/log_erase.go
index ebfb672..7d851f7 100644
--- a/common/log_erase.go
+++ b/common/log_erase.go
@@ -134,7 +134,8 @@ func (m *LogErase) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_request_data.go b/common/log_request_data.go
index 8c6edac..63894ac 100644
--- a/common/log_request_data.go
+++ b/common/log_request_data.go
@@ -146,7 +146,8 @@ func (m *LogRequestData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_request_end.go b/common/log_request_end.go
index 365fd33..c49c696 100644
--- a/common/log_request_end.go
+++ b/common/log_request_end.go
@@ -134,7 +134,8 @@ func (m *LogRequestEnd) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/log_request_list.go b/common/log_request_list.go
index ae365ee..ffafc06 100644
--- a/common/log_request_list.go
+++ b/common/log_request_list.go
@@ -142,7 +142,8 @@ func (m *LogRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/logging_ack.go b/common/logging_ack.go
index 7b5bb22..211a0e3 100644
--- a/common/logging_ack.go
+++ b/common/logging_ack.go
@@ -138,7 +138,8 @@ func (m *LoggingAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/logging_data.go b/common/logging_data.go
index 27f1b48..f8f052b 100644
--- a/common/logging_data.go
+++ b/common/logging_data.go
@@ -150,7 +150,8 @@ func (m *LoggingData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/logging_data_acked.go b/common/logging_data_acked.go
index c86a9b5..0377b8a 100644
--- a/common/logging_data_acked.go
+++ b/common/logging_data_acked.go
@@ -150,7 +150,8 @@ func (m *LoggingDataAcked) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/manual_control.go b/common/manual_control.go
index 8d6f947..a8b70cd 100644
--- a/common/manual_control.go
+++ b/common/manual_control.go
@@ -150,7 +150,8 @@ func (m *ManualControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/manual_setpoint.go b/common/manual_setpoint.go
index 2ba52a4..744e181 100644
--- a/common/manual_setpoint.go
+++ b/common/manual_setpoint.go
@@ -154,7 +154,8 @@ func (m *ManualSetpoint) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/memory_vect.go b/common/memory_vect.go
index fdc0a5e..96853fe 100644
--- a/common/memory_vect.go
+++ b/common/memory_vect.go
@@ -142,7 +142,8 @@ func (m *MemoryVect) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/message_interval.go b/common/message_interval.go
index 8de5601..752f4c1 100644
--- a/common/message_interval.go
+++ b/common/message_interval.go
@@ -134,7 +134,8 @@ func (m *MessageInterval) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_ack.go b/common/mission_ack.go
index 3d580fb..5217eea 100644
--- a/common/mission_ack.go
+++ b/common/mission_ack.go
@@ -159,7 +159,8 @@ func (m *MissionAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_changed.go b/common/mission_changed.go
index 9504c9a..5b5c083 100644
--- a/common/mission_changed.go
+++ b/common/mission_changed.go
@@ -146,7 +146,8 @@ func (m *MissionChanged) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_clear_all.go b/common/mission_clear_all.go
index 257f5c3..3091628 100644
--- a/common/mission_clear_all.go
+++ b/common/mission_clear_all.go
@@ -154,7 +154,8 @@ func (m *MissionClearAll) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_count.go b/common/mission_count.go
index b005ad7..617a51f 100644
--- a/common/mission_count.go
+++ b/common/mission_count.go
@@ -159,7 +159,8 @@ func (m *MissionCount) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_current.go b/common/mission_current.go
index 61e2f95..d021109 100644
--- a/common/mission_current.go
+++ b/common/mission_current.go
@@ -130,7 +130,8 @@ func (m *MissionCurrent) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_item.go b/common/mission_item.go
index c5b0268..db11e3e 100644
--- a/common/mission_item.go
+++ b/common/mission_item.go
@@ -215,7 +215,8 @@ func (m *MissionItem) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_item_int.go b/common/mission_item_int.go
index eb1a9ff..be690d3 100644
--- a/common/mission_item_int.go
+++ b/common/mission_item_int.go
@@ -215,7 +215,8 @@ func (m *MissionItemInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_item_reached.go b/common/mission_item_reached.go
index fd14811..812046b 100644
--- a/common/mission_item_reached.go
+++ b/common/mission_item_reached.go
@@ -130,7 +130,8 @@ func (m *MissionItemReached) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request.go b/common/mission_request.go
index 8e72399..014e71d 100644
--- a/common/mission_request.go
+++ b/common/mission_request.go
@@ -159,7 +159,8 @@ func (m *MissionRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request_int.go b/common/mission_request_int.go
index 5ddf874..ef62253 100644
--- a/common/mission_request_int.go
+++ b/common/mission_request_int.go
@@ -159,7 +159,8 @@ func (m *MissionRequestInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request_list.go b/common/mission_request_list.go
index 185fa01..d313d81 100644
--- a/common/mission_request_list.go
+++ b/common/mission_request_list.go
@@ -154,7 +154,8 @@ func (m *MissionRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_request_partial_list.go b/common/mission_request_partial_list.go
index 2ce3936..7bc085d 100644
--- a/common/mission_request_partial_list.go
+++ b/common/mission_request_partial_list.go
@@ -164,7 +164,8 @@ func (m *MissionRequestPartialList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_set_current.go b/common/mission_set_current.go
index 02241e3..9f00728 100644
--- a/common/mission_set_current.go
+++ b/common/mission_set_current.go
@@ -138,7 +138,8 @@ func (m *MissionSetCurrent) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mission_write_partial_list.go b/common/mission_write_partial_list.go
index eedd9b5..ba2f9ac 100644
--- a/common/mission_write_partial_list.go
+++ b/common/mission_write_partial_list.go
@@ -164,7 +164,8 @@ func (m *MissionWritePartialList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/mount_orientation.go b/common/mount_orientation.go
index d9f1ccb..0ccd191 100644
--- a/common/mount_orientation.go
+++ b/common/mount_orientation.go
@@ -164,7 +164,8 @@ func (m *MountOrientation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/named_value_float.go b/common/named_value_float.go
index f8aebf4..0a54fbe 100644
--- a/common/named_value_float.go
+++ b/common/named_value_float.go
@@ -163,7 +163,8 @@ func (m *NamedValueFloat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/named_value_int.go b/common/named_value_int.go
index 64074f5..813c8bf 100644
--- a/common/named_value_int.go
+++ b/common/named_value_int.go
@@ -163,7 +163,8 @@ func (m *NamedValueInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/nav_controller_output.go b/common/nav_controller_output.go
index 1493b26..2a80409 100644
--- a/common/nav_controller_output.go
+++ b/common/nav_controller_output.go
@@ -158,7 +158,8 @@ func (m *NAVControllerOutput) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/obstacle_distance.go b/common/obstacle_distance.go
index 98b2177..1ee1779 100644
--- a/common/obstacle_distance.go
+++ b/common/obstacle_distance.go
@@ -182,7 +182,8 @@ func (m *ObstacleDistance) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/odometry.go b/common/odometry.go
index d549390..b7be5a3 100644
--- a/common/odometry.go
+++ b/common/odometry.go
@@ -223,7 +223,8 @@ func (m *Odometry) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/onboard_computer_status.go b/common/onboard_computer_status.go
index 5907227..0a80ca0 100644
--- a/common/onboard_computer_status.go
+++ b/common/onboard_computer_status.go
@@ -206,7 +206,8 @@ func (m *OnboardComputerStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_authentication.go b/common/open_drone_id_authentication.go
index c37ef6c..e32edbd 100644
--- a/common/open_drone_id_authentication.go
+++ b/common/open_drone_id_authentication.go
@@ -150,7 +150,8 @@ func (m *OpenDroneIDAuthentication) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_basic_id.go b/common/open_drone_id_basic_id.go
index ea47804..ff6096b 100644
--- a/common/open_drone_id_basic_id.go
+++ b/common/open_drone_id_basic_id.go
@@ -138,7 +138,8 @@ func (m *OpenDroneIDBasicID) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_location.go b/common/open_drone_id_location.go
index fcdf175..a228aeb 100644
--- a/common/open_drone_id_location.go
+++ b/common/open_drone_id_location.go
@@ -190,7 +190,8 @@ func (m *OpenDroneIDLocation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_message_pack.go b/common/open_drone_id_message_pack.go
index da07078..5a6a9b4 100644
--- a/common/open_drone_id_message_pack.go
+++ b/common/open_drone_id_message_pack.go
@@ -138,7 +138,8 @@ func (m *OpenDroneIDMessagePack) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_operator_id.go b/common/open_drone_id_operator_id.go
index 01fc6b0..658cb71 100644
--- a/common/open_drone_id_operator_id.go
+++ b/common/open_drone_id_operator_id.go
@@ -159,7 +159,8 @@ func (m *OpenDroneIDOperatorID) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_self_id.go b/common/open_drone_id_self_id.go
index 643aa8e..e51af07 100644
--- a/common/open_drone_id_self_id.go
+++ b/common/open_drone_id_self_id.go
@@ -159,7 +159,8 @@ func (m *OpenDroneIDSelfID) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/open_drone_id_system.go b/common/open_drone_id_system.go
index d193ac8..ad5348f 100644
--- a/common/open_drone_id_system.go
+++ b/common/open_drone_id_system.go
@@ -154,7 +154,8 @@ func (m *OpenDroneIDSystem) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/optical_flow.go b/common/optical_flow.go
index 0c8f444..286b92f 100644
--- a/common/optical_flow.go
+++ b/common/optical_flow.go
@@ -188,7 +188,8 @@ func (m *OpticalFlow) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/optical_flow_rad.go b/common/optical_flow_rad.go
index 36aaca5..eb5616e 100644
--- a/common/optical_flow_rad.go
+++ b/common/optical_flow_rad.go
@@ -174,7 +174,8 @@ func (m *OpticalFlowRad) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/orbit_execution_status.go b/common/orbit_execution_status.go
index 27d1d67..09cccf0 100644
--- a/common/orbit_execution_status.go
+++ b/common/orbit_execution_status.go
@@ -150,7 +150,8 @@ func (m *OrbitExecutionStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_ack.go b/common/param_ext_ack.go
index 73bb5f2..dda89eb 100644
--- a/common/param_ext_ack.go
+++ b/common/param_ext_ack.go
@@ -191,7 +191,8 @@ func (m *ParamExtAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_request_list.go b/common/param_ext_request_list.go
index c43a4da..23bd8eb 100644
--- a/common/param_ext_request_list.go
+++ b/common/param_ext_request_list.go
@@ -134,7 +134,8 @@ func (m *ParamExtRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_request_read.go b/common/param_ext_request_read.go
index bfd13c7..55d9fc9 100644
--- a/common/param_ext_request_read.go
+++ b/common/param_ext_request_read.go
@@ -167,7 +167,8 @@ func (m *ParamExtRequestRead) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_set.go b/common/param_ext_set.go
index 025de6a..9189760 100644
--- a/common/param_ext_set.go
+++ b/common/param_ext_set.go
@@ -195,7 +195,8 @@ func (m *ParamExtSet) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_ext_value.go b/common/param_ext_value.go
index 9cff55e..9df60a2 100644
--- a/common/param_ext_value.go
+++ b/common/param_ext_value.go
@@ -195,7 +195,8 @@ func (m *ParamExtValue) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_map_rc.go b/common/param_map_rc.go
index 3f04556..0f50906 100644
--- a/common/param_map_rc.go
+++ b/common/param_map_rc.go
@@ -187,7 +187,8 @@ func (m *ParamMapRC) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_request_list.go b/common/param_request_list.go
index cf1632b..39628ef 100644
--- a/common/param_request_list.go
+++ b/common/param_request_list.go
@@ -134,7 +134,8 @@ func (m *ParamRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_request_read.go b/common/param_request_read.go
index 1aa3685..486a6bd 100644
--- a/common/param_request_read.go
+++ b/common/param_request_read.go
@@ -167,7 +167,8 @@ func (m *ParamRequestRead) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_set.go b/common/param_set.go
index 469e01f..4902f26 100644
--- a/common/param_set.go
+++ b/common/param_set.go
@@ -171,7 +171,8 @@ func (m *ParamSet) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/param_value.go b/common/param_value.go
index 6dbdda3..349a6be 100644
--- a/common/param_value.go
+++ b/common/param_value.go
@@ -171,7 +171,8 @@ func (m *ParamValue) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/ping.go b/common/ping.go
index 30cc58e..ebef2d5 100644
--- a/common/ping.go
+++ b/common/ping.go
@@ -142,7 +142,8 @@ func (m *Ping) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/play_tune.go b/common/play_tune.go
index aefa225..5b82d49 100644
--- a/common/play_tune.go
+++ b/common/play_tune.go
@@ -208,7 +208,8 @@ func (m *PlayTune) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/play_tune_v2.go b/common/play_tune_v2.go
index fc30484..5b66577 100644
--- a/common/play_tune_v2.go
+++ b/common/play_tune_v2.go
@@ -167,7 +167,8 @@ func (m *PlayTuneV2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/position_target_global_int.go b/common/position_target_global_int.go
index a3377ec..7b10d67 100644
--- a/common/position_target_global_int.go
+++ b/common/position_target_global_int.go
@@ -182,7 +182,8 @@ func (m *PositionTargetGlobalInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/position_target_local_ned.go b/common/position_target_local_ned.go
index a1b8a36..4f64a6d 100644
--- a/common/position_target_local_ned.go
+++ b/common/position_target_local_ned.go
@@ -182,7 +182,8 @@ func (m *PositionTargetLocalNed) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/power_status.go b/common/power_status.go
index 6256916..2b2253d 100644
--- a/common/power_status.go
+++ b/common/power_status.go
@@ -138,7 +138,8 @@ func (m *PowerStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/protocol_version.go b/common/protocol_version.go
index 059c106..2e4f853 100644
--- a/common/protocol_version.go
+++ b/common/protocol_version.go
@@ -146,7 +146,8 @@ func (m *ProtocolVersion) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/radio_status.go b/common/radio_status.go
index 2e92b45..89635c6 100644
--- a/common/radio_status.go
+++ b/common/radio_status.go
@@ -154,7 +154,8 @@ func (m *RadioStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/raw_imu.go b/common/raw_imu.go
index f8d272c..beab68b 100644
--- a/common/raw_imu.go
+++ b/common/raw_imu.go
@@ -198,7 +198,8 @@ func (m *RawIMU) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/raw_pressure.go b/common/raw_pressure.go
index 9f34bee..25fa8ff 100644
--- a/common/raw_pressure.go
+++ b/common/raw_pressure.go
@@ -146,7 +146,8 @@ func (m *RawPressure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels.go b/common/rc_channels.go
index 7898a81..1e55793 100644
--- a/common/rc_channels.go
+++ b/common/rc_channels.go
@@ -210,7 +210,8 @@ func (m *RCChannels) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels_override.go b/common/rc_channels_override.go
index d861447..a970c7b 100644
--- a/common/rc_channels_override.go
+++ b/common/rc_channels_override.go
@@ -230,7 +230,8 @@ func (m *RCChannelsOverrIDe) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels_raw.go b/common/rc_channels_raw.go
index ef45f47..0f4152c 100644
--- a/common/rc_channels_raw.go
+++ b/common/rc_channels_raw.go
@@ -170,7 +170,8 @@ func (m *RCChannelsRaw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/rc_channels_scaled.go b/common/rc_channels_scaled.go
index b85731e..8d8e7fb 100644
--- a/common/rc_channels_scaled.go
+++ b/common/rc_channels_scaled.go
@@ -170,7 +170,8 @@ func (m *RCChannelsScaled) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/request_data_stream.go b/common/request_data_stream.go
index d000353..9143ce1 100644
--- a/common/request_data_stream.go
+++ b/common/request_data_stream.go
@@ -146,7 +146,8 @@ func (m *RequestDataStream) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/resource_request.go b/common/resource_request.go
index 147a1c9..67f38a9 100644
--- a/common/resource_request.go
+++ b/common/resource_request.go
@@ -146,7 +146,8 @@ func (m *ResouRCeRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/safety_allowed_area.go b/common/safety_allowed_area.go
index 1bbef4d..e6d3fab 100644
--- a/common/safety_allowed_area.go
+++ b/common/safety_allowed_area.go
@@ -154,7 +154,8 @@ func (m *SafetyAllowedArea) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/safety_set_allowed_area.go b/common/safety_set_allowed_area.go
index 878d851..5a8cc41 100644
--- a/common/safety_set_allowed_area.go
+++ b/common/safety_set_allowed_area.go
@@ -162,7 +162,8 @@ func (m *SafetySetAllowedArea) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_imu.go b/common/scaled_imu.go
index 3317a8e..e7be283 100644
--- a/common/scaled_imu.go
+++ b/common/scaled_imu.go
@@ -194,7 +194,8 @@ func (m *ScaledIMU) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_imu2.go b/common/scaled_imu2.go
index 4dd0070..045caa2 100644
--- a/common/scaled_imu2.go
+++ b/common/scaled_imu2.go
@@ -194,7 +194,8 @@ func (m *ScaledIMU2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_imu3.go b/common/scaled_imu3.go
index aa1b2be..20c4bfc 100644
--- a/common/scaled_imu3.go
+++ b/common/scaled_imu3.go
@@ -194,7 +194,8 @@ func (m *ScaledIMU3) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_pressure.go b/common/scaled_pressure.go
index d0f18eb..b5b3538 100644
--- a/common/scaled_pressure.go
+++ b/common/scaled_pressure.go
@@ -142,7 +142,8 @@ func (m *ScaledPressure) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_pressure2.go b/common/scaled_pressure2.go
index e06714c..ffd71ed 100644
--- a/common/scaled_pressure2.go
+++ b/common/scaled_pressure2.go
@@ -142,7 +142,8 @@ func (m *ScaledPressure2) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/scaled_pressure3.go b/common/scaled_pressure3.go
index c43092a..1e709c7 100644
--- a/common/scaled_pressure3.go
+++ b/common/scaled_pressure3.go
@@ -142,7 +142,8 @@ func (m *ScaledPressure3) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/serial_control.go b/common/serial_control.go
index 7973720..c1e8af7 100644
--- a/common/serial_control.go
+++ b/common/serial_control.go
@@ -150,7 +150,8 @@ func (m *SerialControl) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/servo_output_raw.go b/common/servo_output_raw.go
index 6398903..6c4e216 100644
--- a/common/servo_output_raw.go
+++ b/common/servo_output_raw.go
@@ -222,7 +222,8 @@ func (m *ServoOutputRaw) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_actuator_control_target.go b/common/set_actuator_control_target.go
index 4ca3bfb..59300d8 100644
--- a/common/set_actuator_control_target.go
+++ b/common/set_actuator_control_target.go
@@ -146,7 +146,8 @@ func (m *SetActuatorControlTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_attitude_target.go b/common/set_attitude_target.go
index c7761b4..034a861 100644
--- a/common/set_attitude_target.go
+++ b/common/set_attitude_target.go
@@ -162,7 +162,8 @@ func (m *SetAttitudeTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_gps_global_origin.go b/common/set_gps_global_origin.go
index 5780f6f..3df5a91 100644
--- a/common/set_gps_global_origin.go
+++ b/common/set_gps_global_origin.go
@@ -164,7 +164,8 @@ func (m *SetGPSGlobalOrigin) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_home_position.go b/common/set_home_position.go
index a06abbe..c8b35b5 100644
--- a/common/set_home_position.go
+++ b/common/set_home_position.go
@@ -199,7 +199,8 @@ func (m *SetHomePosition) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_mode.go b/common/set_mode.go
index ed3eb71..e90216a 100644
--- a/common/set_mode.go
+++ b/common/set_mode.go
@@ -138,7 +138,8 @@ func (m *SetMode) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_position_target_global_int.go b/common/set_position_target_global_int.go
index 1cf77ea..2b06cb0 100644
--- a/common/set_position_target_global_int.go
+++ b/common/set_position_target_global_int.go
@@ -190,7 +190,8 @@ func (m *SetPositionTargetGlobalInt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/set_position_target_local_ned.go b/common/set_position_target_local_ned.go
index 4ababf2..88859ff 100644
--- a/common/set_position_target_local_ned.go
+++ b/common/set_position_target_local_ned.go
@@ -190,7 +190,8 @@ func (m *SetPositionTargetLocalNed) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/setup_signing.go b/common/setup_signing.go
index 1f583ac..a268f1b 100644
--- a/common/setup_signing.go
+++ b/common/setup_signing.go
@@ -142,7 +142,8 @@ func (m *SetupSigning) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/sim_state.go b/common/sim_state.go
index 4161fd6..62af834 100644
--- a/common/sim_state.go
+++ b/common/sim_state.go
@@ -210,7 +210,8 @@ func (m *SimState) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/smart_battery_info.go b/common/smart_battery_info.go
index 471278f..7d01f1a 100644
--- a/common/smart_battery_info.go
+++ b/common/smart_battery_info.go
@@ -191,7 +191,8 @@ func (m *SmartBatteryInfo) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/smart_battery_status.go b/common/smart_battery_status.go
index 6961d8d..d3f0393 100644
--- a/common/smart_battery_status.go
+++ b/common/smart_battery_status.go
@@ -158,7 +158,8 @@ func (m *SmartBatteryStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/statustext.go b/common/statustext.go
index 6e557b8..e54f91a 100644
--- a/common/statustext.go
+++ b/common/statustext.go
@@ -159,7 +159,8 @@ func (m *Statustext) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/statustext_long.go b/common/statustext_long.go
index f6a4d72..f276fed 100644
--- a/common/statustext_long.go
+++ b/common/statustext_long.go
@@ -159,7 +159,8 @@ func (m *StatustextLong) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/storage_information.go b/common/storage_information.go
index 7340b0c..7879f77 100644
--- a/common/storage_information.go
+++ b/common/storage_information.go
@@ -162,7 +162,8 @@ func (m *StorageInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/supported_tunes.go b/common/supported_tunes.go
index 09a50b6..8ae267f 100644
--- a/common/supported_tunes.go
+++ b/common/supported_tunes.go
@@ -138,7 +138,8 @@ func (m *SupportedTunes) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/sys_status.go b/common/sys_status.go
index d0f0ccd..d9d483e 100644
--- a/common/sys_status.go
+++ b/common/sys_status.go
@@ -178,7 +178,8 @@ func (m *SysStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/system_time.go b/common/system_time.go
index 30c3a05..10fae02 100644
--- a/common/system_time.go
+++ b/common/system_time.go
@@ -134,7 +134,8 @@ func (m *SystemTime) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_check.go b/common/terrain_check.go
index 3140539..9bde4e3 100644
--- a/common/terrain_check.go
+++ b/common/terrain_check.go
@@ -134,7 +134,8 @@ func (m *TerrainCheck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_data.go b/common/terrain_data.go
index 8849b71..cf3422a 100644
--- a/common/terrain_data.go
+++ b/common/terrain_data.go
@@ -146,7 +146,8 @@ func (m *TerrainData) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_report.go b/common/terrain_report.go
index 1b8e89a..cb2b86a 100644
--- a/common/terrain_report.go
+++ b/common/terrain_report.go
@@ -154,7 +154,8 @@ func (m *TerrainReport) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/terrain_request.go b/common/terrain_request.go
index cef1975..0c2f97c 100644
--- a/common/terrain_request.go
+++ b/common/terrain_request.go
@@ -142,7 +142,8 @@ func (m *TerrainRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/time_estimate_to_target.go b/common/time_estimate_to_target.go
index fb44bd7..3208043 100644
--- a/common/time_estimate_to_target.go
+++ b/common/time_estimate_to_target.go
@@ -146,7 +146,8 @@ func (m *TimeEstimateToTarget) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/timesync.go b/common/timesync.go
index ba31c00..4a7dc7f 100644
--- a/common/timesync.go
+++ b/common/timesync.go
@@ -134,7 +134,8 @@ func (m *Timesync) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/trajectory_representation_bezier.go b/common/trajectory_representation_bezier.go
index d5a981c..3800bf4 100644
--- a/common/trajectory_representation_bezier.go
+++ b/common/trajectory_representation_bezier.go
@@ -154,7 +154,8 @@ func (m *TrajectoryRepresentationBezier) Read(frame mavlink2.Frame) (err error)
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/trajectory_representation_waypoints.go b/common/trajectory_representation_waypoints.go
index 7e1201b..6ffcb1a 100644
--- a/common/trajectory_representation_waypoints.go
+++ b/common/trajectory_representation_waypoints.go
@@ -182,7 +182,8 @@ func (m *TrajectoryRepresentationWaypoints) Read(frame mavlink2.Frame) (err erro
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/tunnel.go b/common/tunnel.go
index f48dcff..e367d54 100644
--- a/common/tunnel.go
+++ b/common/tunnel.go
@@ -146,7 +146,8 @@ func (m *Tunnel) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/uavcan_node_info.go b/common/uavcan_node_info.go
index 756aa8c..4ea9f80 100644
--- a/common/uavcan_node_info.go
+++ b/common/uavcan_node_info.go
@@ -187,7 +187,8 @@ func (m *UavcanNodeInfo) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/uavcan_node_status.go b/common/uavcan_node_status.go
index 84a01cd..482bda7 100644
--- a/common/uavcan_node_status.go
+++ b/common/uavcan_node_status.go
@@ -150,7 +150,8 @@ func (m *UavcanNodeStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/utm_global_position.go b/common/utm_global_position.go
index 5b7073c..cfb2cbf 100644
--- a/common/utm_global_position.go
+++ b/common/utm_global_position.go
@@ -198,7 +198,8 @@ func (m *UtmGlobalPosition) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/v2_extension.go b/common/v2_extension.go
index 8997c34..0f7a7d4 100644
--- a/common/v2_extension.go
+++ b/common/v2_extension.go
@@ -160,7 +160,8 @@ func (m *V2Extension) Read(frame mavlink2.Frame) (err error) {
 	// Get a slice with enough capacity for a full read
 	ioBytes := m.getIOSlice()
 
-	copy(ioBytes, frame.GetMessageBytes())
+	// The last two bytes are not part of the payload
+	copy(ioBytes[:len(ioBytes)-2], frame.GetMessageBytes())
 
 	// Add the length of the payload to the end of the array so that it is read in as PayloadLength
 	ioBytes[len(ioBytes)-1] = uint8(math.Min(float64(len(m.Payload)), math.Max(0, float64(frame.GetMessageLength())-5)))
diff --git a/common/vfr_hud.go b/common/vfr_hud.go
index b23847b..9ada7e6 100644
--- a/common/vfr_hud.go
+++ b/common/vfr_hud.go
@@ -150,7 +150,8 @@ func (m *VFRHUD) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vibration.go b/common/vibration.go
index 7655d5b..66d0d07 100644
--- a/common/vibration.go
+++ b/common/vibration.go
@@ -154,7 +154,8 @@ func (m *Vibration) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vicon_position_estimate.go b/common/vicon_position_estimate.go
index 0175243..4bf521c 100644
--- a/common/vicon_position_estimate.go
+++ b/common/vicon_position_estimate.go
@@ -179,7 +179,8 @@ func (m *ViconPositionEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/video_stream_information.go b/common/video_stream_information.go
index 95fc8b6..8658d95 100644
--- a/common/video_stream_information.go
+++ b/common/video_stream_information.go
@@ -223,7 +223,8 @@ func (m *VIDeoStreamInformation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/video_stream_status.go b/common/video_stream_status.go
index 404bc6a..8f8db25 100644
--- a/common/video_stream_status.go
+++ b/common/video_stream_status.go
@@ -158,7 +158,8 @@ func (m *VIDeoStreamStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vision_position_estimate.go b/common/vision_position_estimate.go
index 75979c4..16789e9 100644
--- a/common/vision_position_estimate.go
+++ b/common/vision_position_estimate.go
@@ -183,7 +183,8 @@ func (m *VisionPositionEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/vision_speed_estimate.go b/common/vision_speed_estimate.go
index 3fa0108..1dfb3ba 100644
--- a/common/vision_speed_estimate.go
+++ b/common/vision_speed_estimate.go
@@ -168,7 +168,8 @@ func (m *VisionSpeedEstimate) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/wheel_distance.go b/common/wheel_distance.go
index e2295a0..2aa05c7 100644
--- a/common/wheel_distance.go
+++ b/common/wheel_distance.go
@@ -138,7 +138,8 @@ func (m *WheelDistance) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/wifi_config_ap.go b/common/wifi_config_ap.go
index 50898d6..924b458 100644
--- a/common/wifi_config_ap.go
+++ b/common/wifi_config_ap.go
@@ -183,7 +183,8 @@ func (m *WifiConfigAp) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/common/wind_cov.go b/common/wind_cov.go
index cfb4eb1..5d04826 100644
--- a/common/wind_cov.go
+++ b/common/wind_cov.go
@@ -162,7 +162,8 @@ func (m *WindCov) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/icarous/icarous_heartbeat.go b/icarous/icarous_heartbeat.go
index c8914f2..d0efc3c 100644
--- a/icarous/icarous_heartbeat.go
+++ b/icarous/icarous_heartbeat.go
@@ -130,7 +130,8 @@ func (m *IcarousHeartbeat) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/icarous/icarous_kinematic_bands.go b/icarous/icarous_kinematic_bands.go
index 2336d40..1618955 100644
--- a/icarous/icarous_kinematic_bands.go
+++ b/icarous/icarous_kinematic_bands.go
@@ -190,7 +190,8 @@ func (m *IcarousKinematicBands) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/airspeeds.go b/matrixpilot/airspeeds.go
index e84613e..2c055e3 100644
--- a/matrixpilot/airspeeds.go
+++ b/matrixpilot/airspeeds.go
@@ -154,7 +154,8 @@ func (m *Airspeeds) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/altitudes.go b/matrixpilot/altitudes.go
index c05a43d..54813ac 100644
--- a/matrixpilot/altitudes.go
+++ b/matrixpilot/altitudes.go
@@ -154,7 +154,8 @@ func (m *Altitudes) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_buffer_function.go b/matrixpilot/flexifunction_buffer_function.go
index f68770f..5937472 100644
--- a/matrixpilot/flexifunction_buffer_function.go
+++ b/matrixpilot/flexifunction_buffer_function.go
@@ -154,7 +154,8 @@ func (m *FlexifunctionBufferFunction) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_buffer_function_ack.go b/matrixpilot/flexifunction_buffer_function_ack.go
index 6807806..ca9f1ec 100644
--- a/matrixpilot/flexifunction_buffer_function_ack.go
+++ b/matrixpilot/flexifunction_buffer_function_ack.go
@@ -142,7 +142,8 @@ func (m *FlexifunctionBufferFunctionAck) Read(frame mavlink2.Frame) (err error)
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_command.go b/matrixpilot/flexifunction_command.go
index f92271c..f0e2a1d 100644
--- a/matrixpilot/flexifunction_command.go
+++ b/matrixpilot/flexifunction_command.go
@@ -138,7 +138,8 @@ func (m *FlexifunctionCommand) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_command_ack.go b/matrixpilot/flexifunction_command_ack.go
index 7acfda8..a2c77b1 100644
--- a/matrixpilot/flexifunction_command_ack.go
+++ b/matrixpilot/flexifunction_command_ack.go
@@ -134,7 +134,8 @@ func (m *FlexifunctionCommandAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_directory.go b/matrixpilot/flexifunction_directory.go
index d30afb3..2241a9a 100644
--- a/matrixpilot/flexifunction_directory.go
+++ b/matrixpilot/flexifunction_directory.go
@@ -150,7 +150,8 @@ func (m *FlexifunctionDirectory) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_directory_ack.go b/matrixpilot/flexifunction_directory_ack.go
index 4faf23b..77cf3e2 100644
--- a/matrixpilot/flexifunction_directory_ack.go
+++ b/matrixpilot/flexifunction_directory_ack.go
@@ -150,7 +150,8 @@ func (m *FlexifunctionDirectoryAck) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_read_req.go b/matrixpilot/flexifunction_read_req.go
index 7168c83..d128438 100644
--- a/matrixpilot/flexifunction_read_req.go
+++ b/matrixpilot/flexifunction_read_req.go
@@ -142,7 +142,8 @@ func (m *FlexifunctionReadReq) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/flexifunction_set.go b/matrixpilot/flexifunction_set.go
index 6ad3421..852dbd5 100644
--- a/matrixpilot/flexifunction_set.go
+++ b/matrixpilot/flexifunction_set.go
@@ -134,7 +134,8 @@ func (m *FlexifunctionSet) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f13.go b/matrixpilot/serial_udb_extra_f13.go
index 02586c6..08cf610 100644
--- a/matrixpilot/serial_udb_extra_f13.go
+++ b/matrixpilot/serial_udb_extra_f13.go
@@ -142,7 +142,8 @@ func (m *SerialUdbExtraF13) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f14.go b/matrixpilot/serial_udb_extra_f14.go
index f000562..052dcd4 100644
--- a/matrixpilot/serial_udb_extra_f14.go
+++ b/matrixpilot/serial_udb_extra_f14.go
@@ -170,7 +170,8 @@ func (m *SerialUdbExtraF14) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f15.go b/matrixpilot/serial_udb_extra_f15.go
index be0a9b4..167b55d 100644
--- a/matrixpilot/serial_udb_extra_f15.go
+++ b/matrixpilot/serial_udb_extra_f15.go
@@ -134,7 +134,8 @@ func (m *SerialUdbExtraF15) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f16.go b/matrixpilot/serial_udb_extra_f16.go
index 77ee7cd..453d7a7 100644
--- a/matrixpilot/serial_udb_extra_f16.go
+++ b/matrixpilot/serial_udb_extra_f16.go
@@ -134,7 +134,8 @@ func (m *SerialUdbExtraF16) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f17.go b/matrixpilot/serial_udb_extra_f17.go
index 3b20478..c4cbf68 100644
--- a/matrixpilot/serial_udb_extra_f17.go
+++ b/matrixpilot/serial_udb_extra_f17.go
@@ -138,7 +138,8 @@ func (m *SerialUdbExtraF17) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f18.go b/matrixpilot/serial_udb_extra_f18.go
index 7edc66b..a83a010 100644
--- a/matrixpilot/serial_udb_extra_f18.go
+++ b/matrixpilot/serial_udb_extra_f18.go
@@ -146,7 +146,8 @@ func (m *SerialUdbExtraF18) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f19.go b/matrixpilot/serial_udb_extra_f19.go
index f7d422e..492994f 100644
--- a/matrixpilot/serial_udb_extra_f19.go
+++ b/matrixpilot/serial_udb_extra_f19.go
@@ -158,7 +158,8 @@ func (m *SerialUdbExtraF19) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f20.go b/matrixpilot/serial_udb_extra_f20.go
index fd27e73..a69d9a0 100644
--- a/matrixpilot/serial_udb_extra_f20.go
+++ b/matrixpilot/serial_udb_extra_f20.go
@@ -178,7 +178,8 @@ func (m *SerialUdbExtraF20) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f21.go b/matrixpilot/serial_udb_extra_f21.go
index b339557..f03f59d 100644
--- a/matrixpilot/serial_udb_extra_f21.go
+++ b/matrixpilot/serial_udb_extra_f21.go
@@ -150,7 +150,8 @@ func (m *SerialUdbExtraF21) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f22.go b/matrixpilot/serial_udb_extra_f22.go
index 8f461a0..acda1b9 100644
--- a/matrixpilot/serial_udb_extra_f22.go
+++ b/matrixpilot/serial_udb_extra_f22.go
@@ -150,7 +150,8 @@ func (m *SerialUdbExtraF22) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f2_a.go b/matrixpilot/serial_udb_extra_f2_a.go
index 82ccac0..69afe13 100644
--- a/matrixpilot/serial_udb_extra_f2_a.go
+++ b/matrixpilot/serial_udb_extra_f2_a.go
@@ -234,7 +234,8 @@ func (m *SerialUdbExtraF2A) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f2_b.go b/matrixpilot/serial_udb_extra_f2_b.go
index af455a6..4c95422 100644
--- a/matrixpilot/serial_udb_extra_f2_b.go
+++ b/matrixpilot/serial_udb_extra_f2_b.go
@@ -326,7 +326,8 @@ func (m *SerialUdbExtraF2B) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f4.go b/matrixpilot/serial_udb_extra_f4.go
index 40a0f87..047f1e0 100644
--- a/matrixpilot/serial_udb_extra_f4.go
+++ b/matrixpilot/serial_udb_extra_f4.go
@@ -166,7 +166,8 @@ func (m *SerialUdbExtraF4) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f5.go b/matrixpilot/serial_udb_extra_f5.go
index e3f8006..32033ef 100644
--- a/matrixpilot/serial_udb_extra_f5.go
+++ b/matrixpilot/serial_udb_extra_f5.go
@@ -142,7 +142,8 @@ func (m *SerialUdbExtraF5) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f6.go b/matrixpilot/serial_udb_extra_f6.go
index 839e84b..93124ce 100644
--- a/matrixpilot/serial_udb_extra_f6.go
+++ b/matrixpilot/serial_udb_extra_f6.go
@@ -146,7 +146,8 @@ func (m *SerialUdbExtraF6) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f7.go b/matrixpilot/serial_udb_extra_f7.go
index deed8bc..199b472 100644
--- a/matrixpilot/serial_udb_extra_f7.go
+++ b/matrixpilot/serial_udb_extra_f7.go
@@ -150,7 +150,8 @@ func (m *SerialUdbExtraF7) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/matrixpilot/serial_udb_extra_f8.go b/matrixpilot/serial_udb_extra_f8.go
index 930ea23..0d349c9 100644
--- a/matrixpilot/serial_udb_extra_f8.go
+++ b/matrixpilot/serial_udb_extra_f8.go
@@ -154,7 +154,8 @@ func (m *SerialUdbExtraF8) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_count.go b/paparazzi/script_count.go
index 8346f2a..5b01f6e 100644
--- a/paparazzi/script_count.go
+++ b/paparazzi/script_count.go
@@ -138,7 +138,8 @@ func (m *ScriptCount) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_current.go b/paparazzi/script_current.go
index 7e20e56..3ae963a 100644
--- a/paparazzi/script_current.go
+++ b/paparazzi/script_current.go
@@ -130,7 +130,8 @@ func (m *ScriptCurrent) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_item.go b/paparazzi/script_item.go
index fc488aa..2d52ec2 100644
--- a/paparazzi/script_item.go
+++ b/paparazzi/script_item.go
@@ -167,7 +167,8 @@ func (m *ScriptItem) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_request.go b/paparazzi/script_request.go
index 8e9c90c..43b2766 100644
--- a/paparazzi/script_request.go
+++ b/paparazzi/script_request.go
@@ -138,7 +138,8 @@ func (m *ScriptRequest) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/paparazzi/script_request_list.go b/paparazzi/script_request_list.go
index 826a4d9..e9f9b02 100644
--- a/paparazzi/script_request_list.go
+++ b/paparazzi/script_request_list.go
@@ -134,7 +134,8 @@ func (m *ScriptRequestList) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/boot.go b/slugs/boot.go
index 0f6e5f8..ff2bf9d 100644
--- a/slugs/boot.go
+++ b/slugs/boot.go
@@ -130,7 +130,8 @@ func (m *Boot) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/control_surface.go b/slugs/control_surface.go
index 8dc26a4..7ed9cae 100644
--- a/slugs/control_surface.go
+++ b/slugs/control_surface.go
@@ -142,7 +142,8 @@ func (m *ControlSurface) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/cpu_load.go b/slugs/cpu_load.go
index 178a929..ccbe4cc 100644
--- a/slugs/cpu_load.go
+++ b/slugs/cpu_load.go
@@ -138,7 +138,8 @@ func (m *CpuLoad) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/ctrl_srfc_pt.go b/slugs/ctrl_srfc_pt.go
index 59689bd..41f1398 100644
--- a/slugs/ctrl_srfc_pt.go
+++ b/slugs/ctrl_srfc_pt.go
@@ -134,7 +134,8 @@ func (m *CtrlSrfcPt) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/data_log.go b/slugs/data_log.go
index e042823..067f2e3 100644
--- a/slugs/data_log.go
+++ b/slugs/data_log.go
@@ -150,7 +150,8 @@ func (m *DataLog) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/diagnostic.go b/slugs/diagnostic.go
index 64e1d12..4439f14 100644
--- a/slugs/diagnostic.go
+++ b/slugs/diagnostic.go
@@ -150,7 +150,8 @@ func (m *Diagnostic) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/gps_date_time.go b/slugs/gps_date_time.go
index 6bc8dae..a3008e3 100644
--- a/slugs/gps_date_time.go
+++ b/slugs/gps_date_time.go
@@ -174,7 +174,8 @@ func (m *GPSDateTime) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/isr_location.go b/slugs/isr_location.go
index 431e732..a22a7a6 100644
--- a/slugs/isr_location.go
+++ b/slugs/isr_location.go
@@ -154,7 +154,8 @@ func (m *IsrLocation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/mid_lvl_cmds.go b/slugs/mid_lvl_cmds.go
index 306877d..6690e48 100644
--- a/slugs/mid_lvl_cmds.go
+++ b/slugs/mid_lvl_cmds.go
@@ -142,7 +142,8 @@ func (m *MIDLvlCmds) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/novatel_diag.go b/slugs/novatel_diag.go
index 998a5c6..efb037a 100644
--- a/slugs/novatel_diag.go
+++ b/slugs/novatel_diag.go
@@ -154,7 +154,8 @@ func (m *NovatelDiag) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/ptz_status.go b/slugs/ptz_status.go
index 1e5348a..85c5ef9 100644
--- a/slugs/ptz_status.go
+++ b/slugs/ptz_status.go
@@ -138,7 +138,8 @@ func (m *PtzStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/sensor_bias.go b/slugs/sensor_bias.go
index 00ecd2e..98f92eb 100644
--- a/slugs/sensor_bias.go
+++ b/slugs/sensor_bias.go
@@ -150,7 +150,8 @@ func (m *SensorBias) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/sensor_diag.go b/slugs/sensor_diag.go
index 8d4b7c3..1b359b3 100644
--- a/slugs/sensor_diag.go
+++ b/slugs/sensor_diag.go
@@ -142,7 +142,8 @@ func (m *SensorDiag) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_camera_order.go b/slugs/slugs_camera_order.go
index 8c67f31..de7dd86 100644
--- a/slugs/slugs_camera_order.go
+++ b/slugs/slugs_camera_order.go
@@ -146,7 +146,8 @@ func (m *SlugsCameraOrder) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_configuration_camera.go b/slugs/slugs_configuration_camera.go
index 1064e2c..b059a3b 100644
--- a/slugs/slugs_configuration_camera.go
+++ b/slugs/slugs_configuration_camera.go
@@ -138,7 +138,8 @@ func (m *SlugsConfigurationCamera) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_mobile_location.go b/slugs/slugs_mobile_location.go
index e5c20b2..efdf031 100644
--- a/slugs/slugs_mobile_location.go
+++ b/slugs/slugs_mobile_location.go
@@ -138,7 +138,8 @@ func (m *SlugsMobileLocation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/slugs_navigation.go b/slugs/slugs_navigation.go
index e0f5514..002a48c 100644
--- a/slugs/slugs_navigation.go
+++ b/slugs/slugs_navigation.go
@@ -166,7 +166,8 @@ func (m *SlugsNAVigation) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/status_gps.go b/slugs/status_gps.go
index 665d192..89fa7e4 100644
--- a/slugs/status_gps.go
+++ b/slugs/status_gps.go
@@ -154,7 +154,8 @@ func (m *StatusGPS) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/uav_status.go b/slugs/uav_status.go
index fc37b4b..a1fad51 100644
--- a/slugs/uav_status.go
+++ b/slugs/uav_status.go
@@ -150,7 +150,8 @@ func (m *UavStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/slugs/volt_sensor.go b/slugs/volt_sensor.go
index 27f30a5..b7b802a 100644
--- a/slugs/volt_sensor.go
+++ b/slugs/volt_sensor.go
@@ -138,7 +138,8 @@ func (m *VoltSensor) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/uAvionix/uavionix_adsb_out_cfg.go b/uAvionix/uavionix_adsb_out_cfg.go
index 603b59f..795f16a 100644
--- a/uAvionix/uavionix_adsb_out_cfg.go
+++ b/uAvionix/uavionix_adsb_out_cfg.go
@@ -183,7 +183,8 @@ func (m *UavionixAdsbOutCfg) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/uAvionix/uavionix_adsb_out_dynamic.go b/uAvionix/uavionix_adsb_out_dynamic.go
index 0ab2bee..c3ecd29 100644
--- a/uAvionix/uavionix_adsb_out_dynamic.go
+++ b/uAvionix/uavionix_adsb_out_dynamic.go
@@ -190,7 +190,8 @@ func (m *UavionixAdsbOutDynamic) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/uAvionix/uavionix_adsb_transceiver_health_report.go b/uAvionix/uavionix_adsb_transceiver_health_report.go
index 8bf0166..19f751c 100644
--- a/uAvionix/uavionix_adsb_transceiver_health_report.go
+++ b/uAvionix/uavionix_adsb_transceiver_health_report.go
@@ -130,7 +130,8 @@ func (m *UavionixAdsbTransceiverHealthReport) Read(frame mavlink2.Frame) (err er
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ualberta/nav_filter_bias.go b/ualberta/nav_filter_bias.go
index 6c9a1e8..474c549 100644
--- a/ualberta/nav_filter_bias.go
+++ b/ualberta/nav_filter_bias.go
@@ -154,7 +154,8 @@ func (m *NAVFilterBias) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ualberta/radio_calibration.go b/ualberta/radio_calibration.go
index b4aedd9..c18b7b1 100644
--- a/ualberta/radio_calibration.go
+++ b/ualberta/radio_calibration.go
@@ -150,7 +150,8 @@ func (m *RadioCalibration) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
diff --git a/ualberta/ualberta_sys_status.go b/ualberta/ualberta_sys_status.go
index 7e5c215..5f549df 100644
--- a/ualberta/ualberta_sys_status.go
+++ b/ualberta/ualberta_sys_status.go
@@ -138,7 +138,8 @@ func (m *UalbertaSysStatus) Read(frame mavlink2.Frame) (err error) {
 	// extensions and trailing zero truncation.
 	ioSlice := m.getIOSlice()
 
-	copy(ioSlice, frame.GetMessageBytes())
+	// The last byte is not part of the payload
+	copy(ioSlice[:len(ioSlice)-1], frame.GetMessageBytes())
 
 	// Indicate if
 	if version == 2 && m.HasExtensionFields() {
-- 
2.43.0


From 73a16514ae6f33769ef3b6b1a05d15f0979d28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 15/15] fix: a done context closes the stream while a loop is
 blocked in the transport

---
 stream.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stream.go b/stream.go
index a3d54cd..32d02a7 100644
--- a/stream.go
+++ b/stream.go
@@ -153,7 +153,19 @@ func (s *FrameStream) GetCloseErr() error {
 	return s.closeErr
 }
 
+// closeOnDone closes the FrameStream once the context is done, so that a call blocked in
+// the transport returns
+func (s *FrameStream) closeOnDone(ctx context.Context) {
+	select {
+	case <-ctx.Done():
+		s.close(ctx.Err())
+	case <-s.closed:
+	}
+}
+
 func (s *FrameStream) WriteContext(ctx context.Context) {
+	go s.closeOnDone(ctx)
+
 	for {
 		select {
 		case <-ctx.Done():
@@ -180,6 +192,8 @@ func (s *FrameStream) WriteContext(ctx context.Context) {
 }
 
 func (s *FrameStream) ReadContext(ctx context.Context) {
+	go s.closeOnDone(ctx)
+
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 5b22e354dd9318e0da5227e185f483455584f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 01/37] fix: reject packets whose header length contradicts the
 header instead of panicking

Package.Decode sliced the input by the HL byte and by HL+FDL (computed in
uint16) without checking either, so a short or lying packet crashed the
decoder. HL is now checked against the presence of the routing fields, and
the frame is read in full before it is used.
---
 libs/egts/egts_pkg.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index c40d6cb..12e3007 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -101,12 +102,17 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	// длина заголовка однозначно определяется наличием полей маршрутизации
+	if p.HeaderLength != p.headerLength() {
+		return egtsPcIncHeaderform, fmt.Errorf("Не верная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 	switch p.PacketType {
@@ -130,12 +136,20 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
 }
 
+// headerLength возвращает длину заголовка пакета с учетом полей маршрутизации
+func (p *Package) headerLength() byte {
+	if p.Route == "1" {
+		return DEFAULT_HEADER_LEN + 5
+	}
+	return DEFAULT_HEADER_LEN
+}
+
 // Encode кодирует струткуру в байтовую строку
 func (p *Package) Encode() ([]byte, error) {
 	var (
-- 
2.43.0


From e952a223da7aa10f0ce5102757b75443f07874ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 02/37] fix: check the body checksum before parsing the body
 and report it as a data CRC error

A damaged body was parsed first, so most damage came back as a decrypt error
(129), and a mismatching checksum as a header CRC error (137) instead of 138.
A packet without a body (FDL=0) carries no body checksum.
---
 libs/egts/egts_pkg.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 12e3007..1aad775 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -115,6 +115,20 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
+
+	// контрольная сумма тела проверяется до разбора и присутствует только если есть само тело
+	if p.FrameDataLength > 0 {
+		crcBytes := make([]byte, 2)
+		if _, err = io.ReadFull(buf, crcBytes); err != nil {
+			return egtsPcIncDataform, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+		}
+		p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+
+		if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
+			return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+		}
+	}
+
 	switch p.PacketType {
 	case PtAppdataPacket:
 		p.ServicesFrameData = &ServiceDataSet{}
@@ -130,15 +144,6 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 		return egtsPcDecryptError, err
 	}
 
-	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
-
-	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
-	}
 	return egtsPcOk, err
 }
 
-- 
2.43.0


From 035ae8ca1ef877224af2cd5c66c11c9c2106c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 03/37] fix: read the 24-bit altitude of EGTS_SR_POS_DATA as
 three bytes

Four bytes were read, so the first byte of the optional source data that may
follow was mixed into the altitude.
---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 9498adb27a83480eabf11f417ba3594bda74e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 04/37] fix: reject records, subrecords and fields that end
 before their declared length

Fields were read with Read, which accepts a short read, and a subrecord longer
than the data left was silently cut, so truncated data decoded into invented
values (stale bytes, zeros) instead of an error.
---
 libs/egts/egts_pkg.go                    |  8 ++++----
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_pos_data.go            | 13 +++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  6 +++++-
 libs/egts/service_data_records.go        | 13 +++++++------
 13 files changed, 66 insertions(+), 51 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 1aad775..836727e 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -68,12 +68,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -83,12 +83,12 @@ func (p *Package) Decode(content []byte) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..be70056 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..b8128d4 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..83bf2a4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 9b8fcb3..7a659dc 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index bbcf14d..3b10a38 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -29,11 +30,14 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Длина подзаписи %d больше оставшихся данных: %d", rd.SubrecordLength, buf.Len())
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 7a5b635..75bb4eb 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -40,12 +41,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -64,7 +65,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -72,7 +73,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("Не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -80,7 +81,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("Не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			sdr.Time = binary.LittleEndian.Uint32(tm)
@@ -97,7 +98,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 7b209bc7988c0b99c4093d3ed7f75ce6ce70e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 05/37] fix: encode the analog sensor flags of
 EGTS_SR_AD_SENSORS_DATA in the order they are decoded

ASFE1 is the least significant bit; Encode wrote it as the most significant.
---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index be70056..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -235,14 +235,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 734efad614f7d64693687de2267039dd466a1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 06/37] fix: decode the second counter of EGTS_SR_COUNTERS_DATA
 into CN2 instead of CN1

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index b8128d4..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -66,7 +66,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 091673eb0c64d41f1d647fc99fe2fe7cd3c3d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 07/37] fix: infer the subrecord type of
 EGTS_SR_DISPATCHER_IDENTITY when encoding

---
 libs/egts/record_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 3b10a38..39598f0 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -127,6 +127,8 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From b06e1db992dd9982b9debd8f3e77e0fa31f052fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 08/37] fix: write the actual lengths when encoding instead of
 trusting stale or truncated ones

HL, RL and SRL were only computed when zero, so a packet that was decoded,
edited and encoded again declared its old lengths, and lengths over 65535
wrapped around. Such packets could not be decoded again.
---
 libs/egts/egts_pkg.go             | 12 +++++-------
 libs/egts/record_data.go          | 15 +++++++++------
 libs/egts/service_data_records.go |  6 ++++--
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 836727e..ddb48da 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -181,13 +182,7 @@ func (p *Package) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать флаги: %v", err)
 	}
 
-	if p.HeaderLength == 0 {
-		p.HeaderLength = DEFAULT_HEADER_LEN
-		if p.Route == "1" {
-			p.HeaderLength += 5
-		}
-	}
-
+	p.HeaderLength = p.headerLength()
 	if err = buf.WriteByte(p.HeaderLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину заголовка: %v", err)
 	}
@@ -203,6 +198,9 @@ func (p *Package) Encode() ([]byte, error) {
 			return result, err
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Слишком длинное тело пакета: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 39598f0..ec6d3b5 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 //RecordData структура секции подзапси у записи ServiceDataRecord
@@ -138,17 +139,19 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if rd.SubrecordLength == 0 {
-			rd.SubrecordLength = rd.SubrecordData.Length()
-		}
-		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
+		srd, err := rd.SubrecordData.Encode()
+		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("слишком длинная подзапись: %d", len(srd))
+		}
 
-		srd, err := rd.SubrecordData.Encode()
-		if err != nil {
+		rd.SubrecordLength = uint16(len(srd))
+		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
 			return result, err
 		}
+
 		buf.Write(srd)
 	}
 
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 75bb4eb..dcdc9bd 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -128,9 +129,10 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if sdr.RecordLength == 0 {
-			sdr.RecordLength = uint16(len(rd))
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("Слишком длинная запись SDR: %d", len(rd))
 		}
+		sdr.RecordLength = uint16(len(rd))
 		if err = binary.Write(buf, binary.LittleEndian, sdr.RecordLength); err != nil {
 			return result, fmt.Errorf("Не удалось записать длину записи SDR: %v", err)
 		}
-- 
2.43.0


From b8c57cfc533d52408b99e8d2de31295558b56865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 09/37] fix: refuse to encode values that do not fit their
 field instead of spilling into neighbours

A sensor number above 7, a speed above 1638 km/h, a DIRH or ALTS above 1 and a
credential containing the separator overwrote other fields of the subrecord.
---
 libs/egts/egts_sr_auth_info.go           | 6 ++++++
 libs/egts/egts_sr_liquid_level_sensor.go | 4 ++++
 libs/egts/egts_sr_pos_data.go            | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/libs/egts/egts_sr_auth_info.go b/libs/egts/egts_sr_auth_info.go
index 20428ac..0c05f12 100644
--- a/libs/egts/egts_sr_auth_info.go
+++ b/libs/egts/egts_sr_auth_info.go
@@ -57,6 +57,12 @@ func (e *SrAuthInfo) Encode() ([]byte, error) {
 	//разделитель строковых полей из ГОСТ 54619 - 2011 секции EGTS_SR_AUTH_INFO
 	sep := byte(0x00)
 
+	for _, field := range []string{e.UserName, e.UserPassword, e.ServerSequence} {
+		if strings.IndexByte(field, sep) >= 0 {
+			return result, fmt.Errorf("Значение поля sr_auth_info содержит разделитель")
+		}
+	}
+
 	result = append(result, []byte(e.UserName)...)
 	result = append(result, sep)
 
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index dc346f6..4c324bd 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -66,6 +66,10 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 	)
 	buf := new(bytes.Buffer)
 
+	if e.LiquidLevelSensorNumber > 7 {
+		return result, fmt.Errorf("Номер датчика ДУЖ не помещается в 3 бита: %d", e.LiquidLevelSensorNumber)
+	}
+
 	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
 		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 83bf2a4..49326a5 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -166,6 +166,13 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	// скорость
+	if e.Speed > 0x3FFF/10 {
+		return result, fmt.Errorf("Скорость не помещается в 14 бит: %d", e.Speed)
+	}
+	if e.DirectionHighestBit > 1 || e.AltitudeSign > 1 {
+		return result, fmt.Errorf("Старший бит направления и знак высоты занимают по одному биту: %d, %d",
+			e.DirectionHighestBit, e.AltitudeSign)
+	}
 	speed := e.Speed*10 | uint16(e.DirectionHighestBit)<<15 // 15 бит
 	speed = speed | uint16(e.AltitudeSign)<<14              //14 бит
 	spd := make([]byte, 2)
-- 
2.43.0


From ea6dda43cd7958353a600580f6a876659b840d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 10/37] fix: keep the fixed-length fields of
 EGTS_SR_TERM_IDENTITY at their length when encoding

Too short or too long LNGC, NID, MSISDN, IMEI and IMSI shifted every later
field, and unparsable flags were silently written as zero.
---
 libs/egts/egts_sr_term_identity.go | 43 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 7a659dc..084fe39 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,9 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
@@ -140,36 +143,26 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.IMEIE == "1" {
-		wbb := 0
-		if wbb, err = buf.Write([]byte(e.IMEI)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMEI при авторизации")
-		}
-		if wbb < 15 {
-			tmp := make([]byte, 15-wbb)
-			buf.Write(tmp)
+		if err = writeFixed(buf, []byte(e.IMEI), 15); err != nil {
+			return result, fmt.Errorf("Не удалось записать IMEI при авторизации: %v", err)
 		}
 	}
 
 	if e.IMSIE == "1" {
-		wbb := 0
-		if wbb, err = buf.Write([]byte(e.IMSI)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
-		}
-		if wbb < 16 {
-			tmp := make([]byte, 16-wbb)
-			buf.Write(tmp)
+		if err = writeFixed(buf, []byte(e.IMSI), 16); err != nil {
+			return result, fmt.Errorf("Не удалось записать IMSI при авторизации: %v", err)
 		}
 	}
 
 	if e.LNGCE == "1" {
-		if _, err = buf.Write([]byte(e.LanguageCode)); err != nil {
-			return result, fmt.Errorf("Не удалось записать IMSI при авторизации")
+		if err = writeFixed(buf, []byte(e.LanguageCode), 3); err != nil {
+			return result, fmt.Errorf("Не удалось записать код языка при авторизации: %v", err)
 		}
 	}
 
 	if e.NIDE == "1" {
-		if _, err = buf.Write(e.NetworkIdentifier); err != nil {
-			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации")
+		if err = writeFixed(buf, e.NetworkIdentifier, 3); err != nil {
+			return result, fmt.Errorf("Не удалось записать код идентификатор сети оператора при авторизации: %v", err)
 		}
 	}
 
@@ -180,8 +173,8 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	if e.MNE == "1" {
-		if _, err = buf.Write([]byte(e.MobileNumber)); err != nil {
-			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента")
+		if err = writeFixed(buf, []byte(e.MobileNumber), 15); err != nil {
+			return result, fmt.Errorf("Не удалось записать телефонный номер мобильного абонента: %v", err)
 		}
 	}
 
@@ -189,6 +182,16 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	return result, err
 }
 
+// writeFixed записывает поле фиксированной длины, дополняя значение нулями справа
+func writeFixed(buf *bytes.Buffer, value []byte, size int) error {
+	if len(value) > size {
+		return fmt.Errorf("значение длиннее %d байт", size)
+	}
+	buf.Write(value)
+	buf.Write(make([]byte, size-len(value)))
+	return nil
+}
+
 //Length получает длинну закодированной подзаписи
 func (e *SrTermIdentity) Length() uint16 {
 	var result uint16
-- 
2.43.0


From 1bacc36d3eed9ad3cd275e20ec8cc4edd4165ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 11/37] fix: refuse to encode navigation time and coordinates
 outside the protocol range

They were converted to uint32 anyway and came out as an arbitrary time or place.
---
 libs/egts/egts_sr_pos_data.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 49326a5..68a2977 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -141,7 +142,15 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.NavigationTime.Sub(startDate).Seconds())); err != nil {
+	navSeconds := e.NavigationTime.Unix() - startDate.Unix()
+	if navSeconds < 0 || navSeconds > math.MaxUint32 {
+		return result, fmt.Errorf("Время навигации вне диапазона протокола: %v", e.NavigationTime)
+	}
+	// знак координат передается флагами LAHS и LOHS
+	if !(e.Latitude >= 0 && e.Latitude <= 90 && e.Longitude >= 0 && e.Longitude <= 180) {
+		return result, fmt.Errorf("Координаты вне диапазона протокола: %v, %v", e.Latitude, e.Longitude)
+	}
+	if err = binary.Write(buf, binary.LittleEndian, uint32(navSeconds)); err != nil {
 		return result, fmt.Errorf("Не удалось записать время навигации: %v", err)
 	}
 
-- 
2.43.0


From 3336088af4550143cbd5425c118b5c2d933899a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/37] fix: store southern and western positions with their
 sign

EGTS_SR_POS_DATA carries coordinates by absolute value; the hemisphere flags
LAHS and LOHS were ignored, so such positions were stored on the wrong side of
the globe.
---
 cli/receiver/server/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e21f310..e1ae3e6 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -201,6 +201,14 @@ func (s *Server) handleConn(conn net.Conn) {
 							NavigationDt: subRecData.NavigationTime.Format(time.RFC3339),
 						}
 
+						// координаты передаются по модулю, знак задается флагами полушария
+						if subRecData.LAHS == "1" {
+							locData.Latitude = -locData.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							locData.Longitude = -locData.Longitude
+						}
+
 						exportPacket.LocStates = append(exportPacket.LocStates, locData)
 						exportPacket.LocStatesCount++
 
-- 
2.43.0


From b790cef008bea5263d8c46c3d20c2d4cbd2cdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 13/37] fix: send EGTS_SR_RESULT_CODE in an application data
 packet

It was labelled EGTS_PT_RESPONSE although its body is a plain record set, so a
terminal could not parse the authorization result.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e1ae3e6..82cf9b3 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -417,7 +417,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 567533bca46b5cc750dc87e56f0369d2ab3373bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 14/37] fix: assemble the record number from counters 110 and
 111 in the right byte order

Counter 110 carries the three low bytes and counter 111 the high byte; the low
byte was lost and the others swapped.
---
 cli/receiver/server/server.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 82cf9b3..1dbfd6f 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -149,7 +149,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			isPkgSave = false
 
 			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {
-				packetIDBytes := make([]byte, 4)
+				packetID := uint32(0)
 
 				srResponsesRecord = append(srResponsesRecord, egts.RecordData{
 					SubrecordType:   egts.SrRecordResponseType,
@@ -259,20 +259,12 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							packetID = packetID&0xFF000000 | subRecData.CounterValue
+							exportPacket.PacketID = packetID
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
-
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
-
-							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
+							packetID = packetID&0x00FFFFFF | subRecData.CounterValue<<24
+							exportPacket.PacketID = packetID
 						}
 					case *egts.SrLiquidLevelSensor:
 						log.Debug("Разбор подзаписи EGTS_SR_LIQUID_LEVEL_SENSOR")
-- 
2.43.0


From 867f856d7666f2186ef1b231707ea00e704f7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 15/37] fix: close connections that sent no data for conn_ttl

The timer was only waited for after the client had already closed its side, so
a silent connection was kept forever.
---
 cli/receiver/server/server.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 1dbfd6f..b66827a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,8 +2,10 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
+	"os"
 	"time"
 
 	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
@@ -69,6 +71,8 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
 
+	reader := idleReader{conn: conn, ttl: s.ttl}
+
 	for {
 	Received:
 		serviceType = 0
@@ -76,16 +80,12 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
-
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(reader, headerBuf)
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
-
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
 				log.WithField("ip", conn.RemoteAddr()).Warn("Пакет не соответствует формату ЕГТС. Закрыто соединение")
@@ -100,7 +100,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(reader, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
@@ -108,10 +108,13 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Info("Соединение закрыто клиентом")
 			return
 		default:
+			if errors.Is(err, os.ErrDeadlineExceeded) {
+				log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+				return
+			}
 			log.WithField("err", err).Error("Ошибка при получении")
 			return
 		}
@@ -316,6 +319,21 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
+// idleReader читает из соединения, прерывая чтение если данных не было дольше ttl
+type idleReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r idleReader) Read(p []byte) (int, error) {
+	if r.ttl > 0 {
+		if err := r.conn.SetReadDeadline(time.Now().Add(r.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return r.conn.Read(p)
+}
+
 func New(srvAddress string, ttl time.Duration, s *storage.Repository) Server {
 	return Server{
 		serverId: "EGTS_GATE0",
-- 
2.43.0


From f1576c2a08eae82fdb89d822292a6f4548646ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 16/37] fix: return from Run once the server is stopped

Accept on the closed listener fails forever, so Run spun logging errors.
---
 cli/receiver/server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index b66827a..f288e95 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -38,7 +38,9 @@ func (s *Server) Run() {
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := s.l.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
+			return
+		} else if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From 1bd9298747cc86a9e5a49fc4a732424975a35da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 17/37] fix: compute the packet length on the wire without
 wrapping around

Bodies near 65535 bytes and header lengths under 10 wrapped the uint16
arithmetic, so the server read a wrong number of bytes and lost the stream.
---
 cli/receiver/server/server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index f288e95..0a9a7e4 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -95,8 +95,13 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
-			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			bodyLen := int(binary.LittleEndian.Uint16(headerBuf[5:7]))
+			pkgLen := int(headerBuf[3])
+			if pkgLen <= headerLen {
+				// границу пакета определить невозможно
+				log.WithField("ip", conn.RemoteAddr()).Warnf("Некорректная длина заголовка %d. Закрыто соединение", pkgLen)
+				return
+			}
 			if bodyLen > 0 {
 				pkgLen += bodyLen + 2
 			}
-- 
2.43.0


From 5b646176fcd0e822a3c0d00689011b0ba53df4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 18/37] fix: do not drop the positions of a packet that also
 carries a record response

EGTS_SR_RESPONSE abandoned the whole packet: nothing was stored or confirmed.
---
 cli/receiver/server/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 0a9a7e4..269c7d8 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -61,6 +61,7 @@ func (s *Server) handleConn(conn net.Conn) {
 
 	var (
 		isPkgSave         bool
+		isResponse        bool
 		srResultCodePkg   []byte
 		serviceType       uint8
 		srResponsesRecord egts.RecordDataSet
@@ -157,6 +158,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 
 			isPkgSave = false
+			isResponse = false
 
 			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {
 				packetID := uint32(0)
@@ -183,7 +185,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
+						isResponse = true
 					case *egts.SrTermIdentity:
 						log.Debug("Разбор подзаписи EGTS_SR_TERM_IDENTITY")
 						// fmt.Printf("Разбор подзаписи EGTS_SR_TERM_IDENTITY: %+v\n\n", subRecData)
@@ -300,6 +302,11 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			}
 
+			// подтверждения записей не требуют ответа, если кроме них в пакете ничего нет
+			if isResponse && !isPkgSave && len(srResultCodePkg) == 0 {
+				goto Received
+			}
+
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
-- 
2.43.0


From 6ea6ae1b670ee3a200d5fe872fd16fbd4b747b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 19/37] fix: do not confirm telemetry that could not be stored

The server answered OK when Save failed, so the terminal dropped its copy and
the data was lost. It now answers EGTS_PC_IO_ERROR.
---
 cli/receiver/server/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 269c7d8..c4ecd71 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -14,8 +14,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -310,6 +311,12 @@ func (s *Server) handleConn(conn net.Conn) {
 			if isPkgSave {
 				if err := s.store.Save(&exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+
+					// несохраненные данные не подтверждаем
+					resultCode = egtsPcIoError
+					for _, subRec := range srResponsesRecord {
+						subRec.SubrecordData.(*egts.SrResponse).RecordStatus = resultCode
+					}
 				}
 			}
 
-- 
2.43.0


From 80fa80ba9d12ced839fb2d18df060370ecee6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 20/37] fix: store the positions of each object of a packet
 under its own id

The client id of the last record was applied to every position of the packet,
and a record without OID, which the standard attributes to the object of the
preceding record, reset it to zero.
---
 cli/receiver/server/server.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index c4ecd71..de8f5ee 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -151,12 +151,16 @@ func (s *Server) handleConn(conn net.Conn) {
 		case egts.PtAppdataPacket:
 			log.Debug("Тип пакета EGTS_PT_APPDATA")
 
-			exportPacket := storage.NavRecord{
-				ServerID:       s.serverId,
-				PacketID:       uint32(pkg.PacketIdentifier),
-				ReceivedDt:     ReceivedDt,
-				LocStatesCount: 0,
+			newExportPacket := func() *storage.NavRecord {
+				return &storage.NavRecord{
+					ServerID:       s.serverId,
+					PacketID:       uint32(pkg.PacketIdentifier),
+					ReceivedDt:     ReceivedDt,
+					LocStatesCount: 0,
+				}
 			}
+			exportPackets := []*storage.NavRecord(nil)
+			exportPacket := newExportPacket()
 
 			isPkgSave = false
 			isResponse = false
@@ -175,7 +179,14 @@ func (s *Server) handleConn(conn net.Conn) {
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
 
-				exportPacket.ClientID = rec.ObjectIdentifier
+				// запись без OID относится к объекту предыдущей записи пакета, записи разных объектов сохраняются отдельно
+				if rec.ObjectIDFieldExists == "1" {
+					if rec.ObjectIdentifier != exportPacket.ClientID && (exportPacket.ClientID != 0 || exportPacket.LocStatesCount > 0) {
+						exportPackets = append(exportPackets, exportPacket)
+						exportPacket = newExportPacket()
+					}
+					exportPacket.ClientID = rec.ObjectIdentifier
+				}
 
 				for _, subRec := range rec.RecordDataSet {
 					switch subRecData := subRec.SubrecordData.(type) {
@@ -308,8 +319,11 @@ func (s *Server) handleConn(conn net.Conn) {
 				goto Received
 			}
 
-			if isPkgSave {
-				if err := s.store.Save(&exportPacket); err != nil {
+			for _, exportPacket := range append(exportPackets, exportPacket) {
+				if exportPacket.LocStatesCount == 0 {
+					continue
+				}
+				if err := s.store.Save(exportPacket); err != nil {
 					log.WithField("err", err).Error("Ошибка сохранения телеметрии")
 
 					// несохраненные данные не подтверждаем
-- 
2.43.0


From d917be5a0ce0b4ae7d5fadf943e0822b5b468bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 21/37] fix: save to every configured storage even when one of
 them fails

The first failing storage kept the record from all storages after it, in the
random order of the configuration map.
---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index a0b0127..6c4ae0e 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var firstErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From b0a9a613d68892e74c89d7c58cc47d7083861473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 22/37] fix: report a failed redis publish instead of panicking

One unreachable redis took the whole receiver down.
---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index a7f2ae0..4281158 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -73,7 +73,7 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {
-		panic(err)
+		return fmt.Errorf("не удалось отправить сообщение в redis очередь: %v", err)
 	}
 
 	return nil
-- 
2.43.0


From 02c1786e2ecbc7d4e59f3832633e780731243bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 23/37] fix: use redis database 0 when the configuration names
 none

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 4281158..684f61c 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 379205a02ea148e00d5d928107a43471ce9c82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 24/37] fix: packet-gen sends the requested time and exits 0 on
 success

---
 cli/packet-gen/main.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ed73be7..07478ba 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -79,7 +79,7 @@ func main() {
 	}
 	timestamp, err := time.Parse(time.RFC3339, ts)
 	if err != nil {
-		fmt.Println("Parsing timestamp failed: ", timestamp)
+		fmt.Println("Parsing timestamp failed: ", err)
 		os.Exit(1)
 	}
 
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From 0a08fcc28c5293d7aac1ace9714ab25c7533dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 25/37] fix: packet-gen waits 5 seconds for the ack by default,
 as documented

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 07478ba..cdda9bb 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 8b106f9a22229a5b2ab0a7ac02d28d31e34cce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 26/37] fix: packet-gen sends negative coordinates through the
 hemisphere flags

---
 cli/packet-gen/main.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index cdda9bb..949e212 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -83,6 +83,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// координаты передаются по модулю, знак задается флагами полушария
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lat, lahs = -lat, "1"
+	}
+	if lon < 0 {
+		lon, lohs = -lon, "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -117,8 +126,8 @@ func main() {
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From 1b0fa6b231ec234c4b8038e8c55c0d63583acb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 27/37] fix: packet-gen reports an ack without record
 confirmations instead of panicking

---
 cli/packet-gen/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 949e212..13688a5 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -216,7 +216,13 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	records, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		fmt.Println("Received ack does not confirm the record")
+		os.Exit(1)
+	}
+
+	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From fb8341d2aa827ad2fdb1788bbaf27230b448da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 28/37] fix: name the connection timeout conn_ttl in the sample
 configuration

The receiver reads conn_ttl; con_live_sec was silently ignored.
---
 README.md             | 2 +-
 configs/receiver.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 41fe106..6ebb9d1 100644
--- a/README.md
+++ b/README.md
@@ -77,7 +77,7 @@ services:
 ```yaml
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
diff --git a/configs/receiver.yaml b/configs/receiver.yaml
index 943dc2a..c720f90 100644
--- a/configs/receiver.yaml
+++ b/configs/receiver.yaml
@@ -1,6 +1,6 @@
 host: "127.0.0.1"
 port: "6000"
-con_live_sec: 10
+conn_ttl: 10
 log_level: "DEBUG"
 
 storage:
-- 
2.43.0


From 28b15f4f156194aab78a408e4f4a7e1c906fcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 29/37] fix: refuse bit fields of the wrong width instead of
 shifting their neighbours

---
 libs/egts/binary_data.go                 | 26 +++++++++++++++
 libs/egts/egts_pkg.go                    |  4 +--
 libs/egts/egts_sr_ad_sensors_data.go     | 41 ++++++++++++------------
 libs/egts/egts_sr_counters_data.go       | 21 ++++++------
 libs/egts/egts_sr_ext_pos_data.go        |  7 ++--
 libs/egts/egts_sr_liquid_level_sensor.go |  6 ++--
 libs/egts/egts_sr_pos_data.go            |  2 +-
 libs/egts/egts_sr_state_data.go          |  3 +-
 libs/egts/egts_sr_term_identity.go       |  3 +-
 libs/egts/service_data_records.go        |  6 ++--
 10 files changed, 68 insertions(+), 51 deletions(-)

diff --git a/libs/egts/binary_data.go b/libs/egts/binary_data.go
index 892a1da..857a215 100644
--- a/libs/egts/binary_data.go
+++ b/libs/egts/binary_data.go
@@ -1,8 +1,34 @@
 package egts
 
+import (
+	"fmt"
+	"strconv"
+)
+
 // BinaryData интерфейс для работы с бинарными секциями
 type BinaryData interface {
 	Decode([]byte) error
 	Encode() ([]byte, error)
 	Length() uint16
 }
+
+// joinBits собирает байт из битовых полей, widths - ширина каждого поля в битах. Незаполненное поле равно нулю,
+// значение другой ширины недопустимо, так как сдвинуло бы соседние поля
+func joinBits(widths []int, fields ...string) (uint64, error) {
+	var result uint64
+	for i, field := range fields {
+		result <<= uint(widths[i])
+		if field == "" {
+			continue
+		}
+		if len(field) != widths[i] {
+			return 0, fmt.Errorf("битовое поле %q должно занимать %d бит", field, widths[i])
+		}
+		value, err := strconv.ParseUint(field, 2, widths[i])
+		if err != nil {
+			return 0, err
+		}
+		result |= value
+	}
+	return result, nil
+}
diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index ddb48da..e19e8cf 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"math"
-	"strconv"
 )
 
 const DEFAULT_HEADER_LEN = 11
@@ -173,8 +172,7 @@ func (p *Package) Encode() ([]byte, error) {
 	}
 
 	//собираем флаги
-	flagsBits := p.Prefix + p.Route + p.EncryptionAlg + p.Compression + p.Priority
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	if flags, err = joinBits([]int{2, 1, 2, 1, 2}, p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 631cae4..f9863ca 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrAdSensorsData структура подзаписи типа EGTS_SR_AD_SENSORS_DATA, которая применяется абонентским
@@ -214,16 +213,16 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 
 	buf := new(bytes.Buffer)
 
-	flagsBits := e.DigitalInputsOctetExists8 +
-		e.DigitalInputsOctetExists7 +
-		e.DigitalInputsOctetExists6 +
-		e.DigitalInputsOctetExists5 +
-		e.DigitalInputsOctetExists4 +
-		e.DigitalInputsOctetExists3 +
-		e.DigitalInputsOctetExists2 +
-		e.DigitalInputsOctetExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = joinBits([]int{1, 1, 1, 1, 1, 1, 1, 1},
+		e.DigitalInputsOctetExists8,
+		e.DigitalInputsOctetExists7,
+		e.DigitalInputsOctetExists6,
+		e.DigitalInputsOctetExists5,
+		e.DigitalInputsOctetExists4,
+		e.DigitalInputsOctetExists3,
+		e.DigitalInputsOctetExists2,
+		e.DigitalInputsOctetExists1)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт цифровых выходов ad_sesor_data: %v", err)
 	}
 
@@ -235,16 +234,16 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists8 +
-		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists6 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = joinBits([]int{1, 1, 1, 1, 1, 1, 1, 1},
+		e.AnalogSensorFieldExists8,
+		e.AnalogSensorFieldExists7,
+		e.AnalogSensorFieldExists6,
+		e.AnalogSensorFieldExists5,
+		e.AnalogSensorFieldExists4,
+		e.AnalogSensorFieldExists3,
+		e.AnalogSensorFieldExists2,
+		e.AnalogSensorFieldExists1)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
 	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 1aa445a..20a5170 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrCountersData структура подзаписи типа EGTS_SR_COUNTERS_DATA, которая используется аппаратно-программным
@@ -127,16 +126,16 @@ func (c *SrCountersData) Encode() ([]byte, error) {
 		result []byte
 	)
 	buf := new(bytes.Buffer)
-	flagsBits := c.CounterFieldExists8 +
-		c.CounterFieldExists7 +
-		c.CounterFieldExists6 +
-		c.CounterFieldExists5 +
-		c.CounterFieldExists4 +
-		c.CounterFieldExists3 +
-		c.CounterFieldExists2 +
-		c.CounterFieldExists1
-
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = joinBits([]int{1, 1, 1, 1, 1, 1, 1, 1},
+		c.CounterFieldExists8,
+		c.CounterFieldExists7,
+		c.CounterFieldExists6,
+		c.CounterFieldExists5,
+		c.CounterFieldExists4,
+		c.CounterFieldExists3,
+		c.CounterFieldExists2,
+		c.CounterFieldExists1)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов counters_data: %v", err)
 	}
 	if err = buf.WriteByte(uint8(flags)); err != nil {
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index b7ab165..59c9cf4 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrExtPosData структура подзаписи типа EGTS_SR_EXT_POS_DATA, которая используется абонентским
@@ -92,9 +91,9 @@ func (e *SrExtPosData) Encode() ([]byte, error) {
 	buf := new(bytes.Buffer)
 
 	//байт флагов
-	flagsBits := "000" + e.NavigationSystemFieldExists + e.SatellitesFieldExists +
-		e.PdopFieldExists + e.HdopFieldExists + e.VdopFieldExists
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = joinBits([]int{3, 1, 1, 1, 1, 1}, "", e.NavigationSystemFieldExists, e.SatellitesFieldExists,
+		e.PdopFieldExists, e.HdopFieldExists, e.VdopFieldExists)
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 4c324bd..7c05002 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -70,9 +70,9 @@ func (e *SrLiquidLevelSensor) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Номер датчика ДУЖ не помещается в 3 бита: %d", e.LiquidLevelSensorNumber)
 	}
 
-	flagsBits := "0" + e.LiquidLevelSensorErrorFlag + e.LiquidLevelSensorValueUnit +
-		e.RawDataFlag + fmt.Sprintf("%03b", e.LiquidLevelSensorNumber)
-	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+	flags, err = joinBits([]int{1, 1, 2, 1, 3}, "", e.LiquidLevelSensorErrorFlag, e.LiquidLevelSensorValueUnit,
+		e.RawDataFlag, fmt.Sprintf("%03b", e.LiquidLevelSensorNumber))
+	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 68a2977..24817b2 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -165,7 +165,7 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	//байт флагов
-	flags, err = strconv.ParseUint(e.ALTE+e.LOHS+e.LAHS+e.MV+e.BB+e.CS+e.FIX+e.VLD, 2, 8)
+	flags, err = joinBits([]int{1, 1, 1, 1, 1, 1, 1, 1}, e.ALTE, e.LOHS, e.LAHS, e.MV, e.BB, e.CS, e.FIX, e.VLD)
 	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов pos_data: %v", err)
 	}
diff --git a/libs/egts/egts_sr_state_data.go b/libs/egts/egts_sr_state_data.go
index 502cb8c..4b01a5c 100644
--- a/libs/egts/egts_sr_state_data.go
+++ b/libs/egts/egts_sr_state_data.go
@@ -3,7 +3,6 @@ package egts
 import (
 	"bytes"
 	"fmt"
-	"strconv"
 )
 
 //SrStateData структура подзаписи типа EGTS_SR_STATE_DATA, которая используется для передачи на
@@ -79,7 +78,7 @@ func (e *SrStateData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать значение напряжения внутренней батареи: %v", err)
 	}
 
-	if flags, err = strconv.ParseUint("00000"+e.NMS+e.IBU+e.BBU, 2, 8); err != nil {
+	if flags, err = joinBits([]int{5, 1, 1, 1}, "", e.NMS, e.IBU, e.BBU); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов state_data: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 084fe39..ff57f70 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"strconv"
 )
 
 //SrTermIdentity структура подзаписи типа EGTS_SR_TERM_IDENTITY, которая используется АС при запросе
@@ -128,7 +127,7 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать идентификатор терминал при авторизации")
 	}
 
-	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	flags, err = joinBits([]int{1, 1, 1, 1, 1, 1, 1, 1}, e.MNE, e.BSE, e.NIDE, e.SSRA, e.LNGCE, e.IMSIE, e.IMEIE, e.HDIDE)
 	if err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
 	}
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index dcdc9bd..bb7f0a0 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"math"
-	"strconv"
 )
 
 //ServiceDataRecord запись содержащая мониторинговую информацию
@@ -142,9 +141,8 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 		}
 
 		//составной байт
-		flagsBits := sdr.SourceServiceOnDevice + sdr.RecipientServiceOnDevice + sdr.Group + sdr.RecordProcessingPriority +
-			sdr.TimeFieldExists + sdr.EventIDFieldExists + sdr.ObjectIDFieldExists
-		if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
+		if flags, err = joinBits([]int{1, 1, 1, 2, 1, 1, 1}, sdr.SourceServiceOnDevice, sdr.RecipientServiceOnDevice, sdr.Group,
+			sdr.RecordProcessingPriority, sdr.TimeFieldExists, sdr.EventIDFieldExists, sdr.ObjectIDFieldExists); err != nil {
 			return result, fmt.Errorf("Не удалось сгенерировать байт флагов SDR: %v", err)
 		}
 		if err = buf.WriteByte(uint8(flags)); err != nil {
-- 
2.43.0


From 8a572314a722a246a027d6dccbd30070f74f38b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 30/37] fix: quote postgresql connection parameters so that
 empty or special values reach the driver

---
 cli/receiver/storage/store/postgresql/connector.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..d3ff435 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,8 +19,15 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
+// quoteParam заключает значение параметра подключения в кавычки: без них пустое значение
+// или значение с пробелами и кавычками искажает следующие за ним параметры
+func quoteParam(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
+}
+
 type Connector struct {
 	connection *sql.DB
 	config     map[string]string
@@ -35,7 +42,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quoteParam(c.config["database"]), quoteParam(c.config["host"]), quoteParam(c.config["port"]),
+		quoteParam(c.config["user"]), quoteParam(c.config["password"]), quoteParam(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
-- 
2.43.0


From 8ee724f397060918f4aad3c38159234b2a43b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 31/37] fix: escape the rabbitmq user and password in the
 connection URL

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..eb663f7 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From 225b433ecc43a4b9cd5ffc4d92a712f6ede1840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 32/37] fix: packet-gen reads the whole ack packet, whatever
 segments it arrives in

---
 cli/packet-gen/main.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 13688a5..5ebbc84 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
+	"io"
 	"net"
 	"os"
 	"time"
@@ -183,17 +185,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -237,3 +237,28 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket читает один пакет целиком: он может прийти несколькими сегментами TCP
+func readPacket(conn io.Reader) ([]byte, error) {
+	const minHeaderLen = 10
+
+	packet := make([]byte, minHeaderLen)
+	if _, err := io.ReadFull(conn, packet); err != nil {
+		return nil, err
+	}
+
+	// длина заголовка, тело и его контрольная сумма
+	packetLen := int(packet[3])
+	if bodyLen := int(binary.LittleEndian.Uint16(packet[5:7])); bodyLen > 0 {
+		packetLen += bodyLen + 2
+	}
+	if packetLen < minHeaderLen {
+		return packet, nil
+	}
+
+	tail := make([]byte, packetLen-minHeaderLen)
+	if _, err := io.ReadFull(conn, tail); err != nil {
+		return nil, err
+	}
+	return append(packet, tail...), nil
+}
-- 
2.43.0


From 77d7340d6600b90766180baa09106996059821dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 33/37] fix: packet-gen succeeds only when the ack confirms the
 record it sent

---
 cli/packet-gen/main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 5ebbc84..20ff2f4 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -43,6 +43,9 @@ Example
 Created by Igor Kuznetsov
 */
 
+// номер единственной записи отправляемого пакета
+const recordNumber = 1
+
 func main() {
 
 	pid := 0
@@ -108,7 +111,7 @@ func main() {
 		PacketType:       1,
 		ServicesFrameData: &egts.ServiceDataSet{
 			egts.ServiceDataRecord{
-				RecordNumber:             1,
+				RecordNumber:             recordNumber,
 				SourceServiceOnDevice:    "0",
 				RecipientServiceOnDevice: "0",
 				Group:                    "0",
@@ -222,6 +225,7 @@ func main() {
 		os.Exit(1)
 	}
 
+	confirmed := false
 	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
@@ -230,10 +234,17 @@ func main() {
 						fmt.Printf("Incorrect record status: %d (actual) != 0 (expected)", response.RecordStatus)
 						os.Exit(1)
 					}
+					if response.ConfirmedRecordNumber == recordNumber {
+						confirmed = true
+					}
 				}
 			}
 		}
 	}
+	if !confirmed {
+		fmt.Println("Received ack does not confirm the record")
+		os.Exit(1)
+	}
 
 	fmt.Println("Packet sent and processed correct")
 }
-- 
2.43.0


From 01770d571ab960a9459ccd7828d07e17f2d4ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 34/37] fix: packet-gen refuses identifiers and levels that do
 not fit their fields

---
 cli/packet-gen/main.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 20ff2f4..e033f03 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/ElectroUnion/egts-gate/libs/egts"
 	"io"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -73,11 +74,26 @@ func main() {
 		os.Exit(1)
 	}
 
+	if pid < 0 || pid > math.MaxUint16 {
+		fmt.Println("Packet identifier is out of range: ", pid)
+		os.Exit(1)
+	}
+
 	if oid == 0 {
 		fmt.Println("Client identifier is require. See to help (-h)")
 		os.Exit(1)
 	}
 
+	if oid < 0 || uint64(oid) > math.MaxUint32 {
+		fmt.Println("Client identifier is out of range: ", oid)
+		os.Exit(1)
+	}
+
+	if liqLvl < 0 || uint64(liqLvl) > math.MaxUint32 {
+		fmt.Println("Liquid level is out of range: ", liqLvl)
+		os.Exit(1)
+	}
+
 	if ts == "" {
 		fmt.Println("Timestamp is require. See to help (-h)")
 		os.Exit(1)
-- 
2.43.0


From 4d0353490833968dce5e88a9fad84ffc4086cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 35/37] fix: close connections whose client stopped reading
 replies

A client that sends packets but does not read the confirmations fills the
socket buffers; conn.Write then blocked forever and neither conn_ttl nor
anything else ended the connection.
---
 cli/receiver/server/server.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index de8f5ee..d8c3271 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -142,7 +142,10 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа EGTS_PT_RESPONSE с ошибкой")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if err := s.reply(conn, resp); err != nil {
+				log.WithField("err", err).Warn("Клиент не принимает ответы. Закрыто соединение")
+				return
+			}
 
 			goto Received
 		}
@@ -339,12 +342,18 @@ func (s *Server) handleConn(conn net.Conn) {
 				log.WithField("err", err).Error("Ошибка сборки ответа")
 				goto Received
 			}
-			_, _ = conn.Write(resp)
+			if err := s.reply(conn, resp); err != nil {
+				log.WithField("err", err).Warn("Клиент не принимает ответы. Закрыто соединение")
+				return
+			}
 
 			log.WithField("packet", resp).Debug("Отправлен пакет EGTS_PT_RESPONSE")
 
 			if len(srResultCodePkg) > 0 {
-				_, _ = conn.Write(srResultCodePkg)
+				if err := s.reply(conn, srResultCodePkg); err != nil {
+					log.WithField("err", err).Warn("Клиент не принимает ответы. Закрыто соединение")
+					return
+				}
 				log.WithField("packet", srResultCodePkg).Debug("Отправлен пакет EGTS_SR_RESULT_CODE")
 			}
 		case egts.PtResponsePacket:
@@ -354,6 +363,19 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 }
 
+// reply отправляет ответ, ошибка возвращается если клиент не принимает данные дольше ttl
+func (s *Server) reply(conn net.Conn, resp []byte) error {
+	if s.ttl > 0 {
+		_ = conn.SetWriteDeadline(time.Now().Add(s.ttl))
+	}
+
+	if _, err := conn.Write(resp); errors.Is(err, os.ErrDeadlineExceeded) {
+		return err
+	}
+
+	return nil
+}
+
 // idleReader читает из соединения, прерывая чтение если данных не было дольше ttl
 type idleReader struct {
 	conn net.Conn
-- 
2.43.0


From f6e23eee89462e6dcaaa6e02674dc2a6fab93c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 36/37] fix: Stop called before Run has opened its listener was
 lost, Run then never returned

---
 cli/receiver/server/server.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index d8c3271..5d8e0c9 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
@@ -24,21 +25,30 @@ type Server struct {
 	addr     string
 	ttl      time.Duration
 	store    *storage.Repository
+	mu       sync.Mutex // защищает l и stopped
 	l        net.Listener
+	stopped  bool
 }
 
 func (s *Server) Run() {
-	var err error
-
-	s.l, err = net.Listen("tcp", s.addr)
+	l, err := net.Listen("tcp", s.addr)
 	if err != nil {
 		log.Fatalf("Не удалось открыть соединение: %v", err)
 	}
-	defer s.l.Close()
+	defer l.Close()
+
+	// Stop мог быть вызван раньше, чем открыто соединение
+	s.mu.Lock()
+	s.l = l
+	stopped := s.stopped
+	s.mu.Unlock()
+	if stopped {
+		return
+	}
 
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
-		conn, err := s.l.Accept()
+		conn, err := l.Accept()
 		if errors.Is(err, net.ErrClosed) {
 			return
 		} else if err != nil {
@@ -50,6 +60,10 @@ func (s *Server) Run() {
 }
 
 func (s *Server) Stop() error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.stopped = true
 	if s.l != nil {
 		return s.l.Close()
 	}
-- 
2.43.0


From 5dc0dfae48abf54be4bb711b5e32161cc8a60476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:12 +0000
Subject: [PATCH 37/37] fix: send_egts.py cut off the last digit of a file
 without a final line end

---
 tools/send_egts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/send_egts.py b/tools/send_egts.py
index 31688cb..0da48f3 100755
--- a/tools/send_egts.py
+++ b/tools/send_egts.py
@@ -22,7 +22,7 @@ if __name__ == '__main__':
     with open(args.file) as f:
         for rec in f.readlines():
             print("send: {}".format(rec))
-            package = bytes.fromhex(rec[:-1])            
+            package = bytes.fromhex(rec.strip())
             client.send(package)
 
             rec_package = client.recv(BUFF)
-- 
2.43.0


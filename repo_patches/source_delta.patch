From 9ce68b2e009264c35b22c8199851c551cebb4adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 01/53] fix: unsigned MEDIUMINT values above 4194303 were
 masked

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..fffba32 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,7 +98,7 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-- 
2.43.0


From f70b2ef2539af24dea81217ca4cb5f1b40a357a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 02/53] fix: 5 to 7 byte unsigned values were read beyond the
 field

---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index fffba32..94351fe 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -102,11 +102,11 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return UtUllCreate(MatchReadFrom1(value), MatchReadFrom4(value[1:]))
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return UtUllCreate(MatchReadFrom2(value), MatchReadFrom4(value[2:]))
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom7(value)
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From 7d7cdfe5459f0fb5c86fd721f6b45e20495bb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 03/53] fix: BIT values were written as b'decimal' and a NULL
 BIT as bNULL

---
 recovery/ibdata/format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..7e446ae 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,8 +33,10 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.MySQLType == utils.MYSQL_TYPE_BIT {
+			format := "%v"
+			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil && column.FieldValue != "NULL" {
 				buf.WriteString("b")
+				format = "%b"
 			}
 
 			if column.IsBinary {
@@ -43,7 +45,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 			if column.FieldValue != nil && column.FieldValue != "NULL" {
 				buf.WriteByte('\'')
-				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
+				buf.WriteString(utils.EscapeValue(fmt.Sprintf(format, column.FieldValue)))
 				buf.WriteByte('\'')
 			} else {
 				//buf.WriteByte('\'')
-- 
2.43.0


From 29126c3bc20d4ac122b1ae1d47603ed38f491b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 04/53] fix: TIMESTAMP values were printed with a 12-hour clock

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 94351fe..3a172ee 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -882,7 +882,7 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From c18a7024b5f61d4dad7dba8454bef2be8a49f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 05/53] fix: DATETIME values were decoded from the bytes behind
 the field or only for years 1991 to 2099

---
 recovery/utils/utils.go | 52 +++++++++--------------------------------
 1 file changed, 11 insertions(+), 41 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 3a172ee..2adb4e0 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -592,7 +592,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			FormatTimeStamp := ParseTimeStamp(data)
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
-			FormatDateTime := ParseDateTime(data)
+			FormatDateTime := ParseDateTime(data[:FieldLen])
 			return FormatDateTime, nil
 		case MYSQL_TYPE_BIT:
 			return GetUintValue(FixLength, data[:FieldLen]), nil
@@ -740,52 +740,22 @@ func GetMaxLength(MySQLType uint64) {
 
 // GetTimeFormat ...
 func GetTimeFormat(data []byte) int {
-	d := MatchReadFrom8(data)
-	var year, month, day, hour, min, sec int
-
-	r := d &^ (1 << 63)
-	sec = int(r % 100)
-	r /= 100
-	min = int(r % 100)
-	r /= 100
-	hour = int(r % 100)
-	r /= 100
-	day = int(r % 100)
-	r /= 100
-	month = int(r % 100)
-	r /= 100
-	year = int(d % 10000)
-	if year > 1990 && year < 2100 && month >= 1 && month <= 12 &&
-		day >= 1 && day <= 31 && hour >= 0 && hour <= 23 &&
-		min >= 0 && min <= 59 && sec >= 0 && sec <= 59 {
-		return 1
-	}
-
-	var sign uint64
-	sign = 0
-	sign = d >> 63
-	if sign == 0 {
-		return 0
-	}
+	d := MatchReadFrom8(data) &^ (1 << 63)
 
-	yd := (d & 0x7FFFC00000000000) >> 46
-	year = int(yd / 13)
-	month = int(int(yd) - (year * 13))
-	day = int((d & 0x00003E0000000000) >> 41)
-	hour = int((d & 0x000001F000000000) >> 36)
-	min = int((d & 0x0000000FC0000000) >> 30)
-	sec = int((d & 0x000000003F000000) >> 24)
-	if year > 1990 && year < 2100 && month >= 1 &&
-		month <= 12 && day >= 1 && day <= 31 &&
-		hour >= 0 && hour <= 23 && min >= 0 &&
-		min <= 59 && sec >= 0 && sec <= 59 {
-		return 2
+	// Before MySQL 5.6 the value is the number YYYYMMDDhhmmss,
+	// since then it is packed with the year in the highest bits.
+	if d < 1<<47 {
+		return 1
 	}
-	return 0
+	return 2
 }
 
 // ParseDateTime ...
 func ParseDateTime(data []byte) string {
+	// Without the old format's 8 bytes, or all 6 fractional digits.
+	if len(data) < 8 {
+		data = append(append([]byte{}, data...), make([]byte, 8-len(data))...)
+	}
 	format := GetTimeFormat(data)
 	if format == 1 || format == 0 {
 		ldate := MatchReadFrom8(data)
-- 
2.43.0


From 2d8e4c66aab3353040dea455d289e24a5ffc0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 06/53] fix: CHAR values of multi-byte charsets lost white
 space that is not blank padding

---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 2adb4e0..2ae838f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -642,7 +642,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From 219ec859c7d3ee99b36bd987e2f00b84ba4d357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 07/53] fix: VARCHAR columns of single-byte charsets were read
 as fixed-length

---
 recovery/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 2ae838f..d1d93ef 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -701,8 +701,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From a0c8875ab9ff802024884bddd05295d1acd8f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 08/53] fix: the two-byte length of VARBINARY columns longer
 than 255 was misread

---
 recovery/ibdata/parse.go     | 3 ++-
 recovery/ibdata/structure.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..7fef9d0 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -460,6 +460,7 @@ func (parse *Parse) getAllColumns() error {
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
+					MaxLen:    c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary})
@@ -1162,7 +1163,7 @@ func (parse *Parse) ibRecInitOffsetsNew(d []byte, offset uint64, o []byte, offse
 			//      if (debug) printf("Variable-length field: read the length\n");
 			/* Variable-length field: read the length */
 
-			if table.Columns[i].FieldLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
+			if table.Columns[i].MaxLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
 
 				if length&0x80 != 0 {
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..7912ab9 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -31,6 +31,7 @@ type Columns struct {
 	MySQLType  uint64
 	FieldPos   uint64
 	FieldLen   uint64
+	MaxLen     uint64 // declared length, also of DATA_BINARY columns
 	FieldValue interface{}
 	IsNUll     bool
 	IsBinary   bool
-- 
2.43.0


From 6405577367124c887042a96e80623157ed94edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 09/53] fix: the text NULL was written as a NULL value

---
 recovery/ibdata/format.go | 4 ++--
 recovery/ibdata/parse.go  | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 7e446ae..14ccd62 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -34,7 +34,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			}
 
 			format := "%v"
-			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil {
 				buf.WriteString("b")
 				format = "%b"
 			}
@@ -43,7 +43,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.FieldValue != nil {
 				buf.WriteByte('\'')
 				buf.WriteString(utils.EscapeValue(fmt.Sprintf(format, column.FieldValue)))
 				buf.WriteByte('\'')
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7fef9d0..fe606ac 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -935,9 +935,7 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		// Get field len from offset array.
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
-			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
-			}
+			columns[i].FieldValue = nil
 			continue
 		}
 
-- 
2.43.0


From 40d6bd36ba34e7cec980e0758c30a27789d2d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 10/53] fix: NULL and external flags of REDUNDANT rows were
 dropped

---
 recovery/ibdata/parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index fe606ac..86adc26 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1089,7 +1089,6 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
 
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
@@ -1110,11 +1109,10 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From 879104763c3d492f395271b2eba2a9a154fddb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 11/53] fix: the text 0001-01-01T00:00:00Z was recovered as an
 empty text

---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d1d93ef..764ba47 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -908,11 +908,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From 667e4b7ac5bec7273204f2186125c09ed9462139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 12/53] fix: the low word of a compressed 64-bit number was
 read behind its place

---
 recovery/utils/utils.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 764ba47..e9e8cb1 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -400,19 +400,13 @@ func ParseBinaryFloat64(data []byte) float64 {
 
 // MatchUllReadComPressed ...
 func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
-	// TODO: num should add to pos
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
-	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
-- 
2.43.0


From eff9e11c874e012549dee2c494687a184cd1aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 13/53] fix: much-compressed numbers of more than 32 bits lost
 their high word

---
 recovery/utils/utils.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index e9e8cb1..5a48c98 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -424,14 +424,11 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		high, v, err := MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
-		v, err := MatchGetCompressedSize(n)
-		if err != nil {
-			fmt.Println(err.Error())
-		}
+		n = high << 32
 		size = 1 + v
 	}
 	value, _, err := MatchParseCompressed(b, size)
@@ -461,7 +458,8 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	return n1 + n2
+	// one byte 0xFF in front
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
-- 
2.43.0


From cf8b04d456cb474508448edb7fc93bc6f663c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 14/53] fix: an undo record that cannot be read disturbed the
 records behind it

---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..3dee0b8 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -81,8 +81,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	defer func() {
 		if err := recover(); err != nil {
 			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
 		}
+		*pos = startPos + dataLen
 	}()
 
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
-- 
2.43.0


From f0f2a2b2a159bf780c4f02853a99f950b2fdd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 15/53] fix: a NULL in an in-place update record lost the rest
 of the log

---
 recovery/redo/mlog.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 3dee0b8..a6519b0 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -539,7 +539,10 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
-				*pos += fieldLen
+				// NULL has no bytes
+				if fieldLen != 0xFFFFFFFF {
+					*pos += fieldLen
+				}
 			}
 		}
 	}
-- 
2.43.0


From 9494744e0659f271d6d880364f171b7e78511591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 16/53] fix: MLOG_DUMMY_RECORD was read as if it had a page
 number

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..bc6f3a3 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -257,7 +257,7 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 		pos++
 		startPos := pos
 
-		if logType == MLOG_MULTI_REC_END {
+		if logType == MLOG_MULTI_REC_END || logType == MLOG_DUMMY_RECORD {
 			// don't parse MLOG_MULTI_REC_END type redo log.
 			continue
 		}
-- 
2.43.0


From 65c70f4ba1c8f795ab5d1c6451d30bc1f69cc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 17/53] fix: the new name of a file rename record was not
 skipped

---
 recovery/redo/mlog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index a6519b0..3968834 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -384,6 +384,11 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		newNameLen := utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += newNameLen
+	}
 }
 
 // MLOG_REC_MARK ...
-- 
2.43.0


From 19592db994e5dc1800985152a28c44cc99ea5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 18/53] fix: the body of MLOG_COMP_REC_SEC_DELETE_MARK was not
 skipped

---
 recovery/redo/mlog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 3968834..d61bb88 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -470,6 +470,7 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+		parse.mlogRecSecDeleteMark(data, pos)
 	}
 	return err
 }
-- 
2.43.0


From d6397f4a1affc1357413f7a2c46a3f8ae5924412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 19/53] fix: redo recovery printed a table of the requested
 name of any other database

---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index d61bb88..2cd7b0b 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -223,7 +223,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
 			parse.makeSQL(Table, primaryFields, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
+		} else if parse.DBName == "" && parse.TableName == Table.TableName {
 			parse.makeSQL(Table, primaryFields, columns)
 		}
 	}
-- 
2.43.0


From 521ec310100c6380b1008a2e9ac53445df8bcc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 20/53] fix: the assignments of an UPDATE were joined with and

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index bc6f3a3..6cb8716 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -533,7 +533,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ", "
 		}
 	}
 
-- 
2.43.0


From 6c1e28d0ff562e6add0dc4ac5cb286f6a5fef62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 21/53] fix: diagnostics were printed among the recovered
 statements

---
 recovery/utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 5a48c98..aff333c 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -403,7 +403,7 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
 	n |= MatchReadFrom4(b[*pos:])
@@ -542,14 +542,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
@@ -590,7 +590,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return GetUintValue(FixLength, data[:FieldLen]), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Info("the decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From 1c6fdc05b67b2233a09e0a931013d0b7d2bc9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 22/53] fix: values in UPDATE statements were not escaped or
 typed as literals

---
 recovery/ibdata/structure.go |  2 ++
 recovery/redo/mlog.go        |  2 ++
 recovery/redo/parse.go       |  6 ++++--
 recovery/utils/utils.go      | 14 ++++++++++++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 7912ab9..98c9d25 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -54,6 +54,8 @@ type Fields struct {
 	ColumnName string
 	//ColumnType  uint64
 	ColumnValue interface{}
+	MySQLType   uint64
+	IsBinary    bool
 }
 
 // DataDict store the data dictionary info.
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 2cd7b0b..cb4bb63 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -156,6 +156,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 
 		logs.Debug("the table is ", Table.TableName, " table id is ", tableID, " unique value is ")
 		v.ColumnValue = value
+		v.MySQLType = column.MySQLType
+		v.IsBinary = column.IsBinary
 
 		*pos += FiledLen
 	}
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 6cb8716..c6c985a 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -526,7 +526,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	for i, c := range columns {
 		var SetValue string
 		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
+			SetValue = fmt.Sprintf("`%s`=%s", c.FieldName,
+				utils.FormatLiteral(c.FieldValue, c.MySQLType, c.IsBinary))
 		} else {
 			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
 		}
@@ -540,7 +541,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName,
+			utils.FormatLiteral(v.ColumnValue, v.MySQLType, v.IsBinary))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index aff333c..03541b3 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -903,6 +903,20 @@ func EscapeValue(colValue string) string {
 	return colBuffer.String()
 }
 
+// FormatLiteral gives a column value as SQL literal.
+func FormatLiteral(value interface{}, MySQLType uint64, IsBinary bool) string {
+	if value == nil {
+		return "NULL"
+	}
+	if MySQLType == MYSQL_TYPE_BIT {
+		return fmt.Sprintf("b'%b'", value)
+	}
+	if IsBinary {
+		return fmt.Sprintf("unhex('%v')", value)
+	}
+	return "'" + EscapeValue(fmt.Sprintf("%v", value)) + "'"
+}
+
 // GetFilesFromOS ...
 func GetFilesFromOS(FilePath string) ([]string, error) {
 	c := fmt.Sprintf("ls -lrt %s|grep ibd|awk '{print $9}'|awk -F '.' '{print $1}'", FilePath)
-- 
2.43.0


From f06c41cb74d9c4bc70b27599c7e354bb9d5a8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 23/53] fix: updates of tables clustered by a unique key were
 not recovered

---
 recovery/redo/mlog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index cb4bb63..42554ec 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -283,6 +283,9 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 			} else {
 				fields = idx.Fields
 			}
+		} else if idx.IndexType&1 != 0 {
+			// clustered by a unique key
+			fields = idx.Fields
 		}
 	}
 	return fields, nil
-- 
2.43.0


From adacfc0b59f66bed89ded69865fa20119e21e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 24/53] fix: a value that is cut off was recovered as NULL

---
 recovery/redo/mlog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 42554ec..33a6c14 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -194,8 +194,12 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("fLen is ", fLen, " num is ", num, "Field Type is ", c.FieldType)
 			*pos += num
 
+			if err != nil {
+				return err
+			}
+
 			var value interface{}
-			if *pos+fLen > uint64(len(data)) {
+			if fLen == 0xFFFFFFFF {
 				value = nil
 				fLen = 0
 			} else {
-- 
2.43.0


From 90d42ca3e9d8f54ba89c44518948b9107940289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 25/53] fix: the columns of a primary key were not moved in
 front in key order

---
 recovery/ibdata/parse.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 86adc26..a36dab0 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -325,16 +325,17 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
-	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
+	var first []Columns
+	for _, field := range fields {
+		for i := 0; i < len(columns); i++ {
 			if field.ColumnName == columns[i].FieldName {
-				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+				first = append(first, columns[i])
+				columns = append(append([]Columns{}, columns[:i]...), columns[i+1:]...)
+				break
 			}
 		}
 	}
-	return columns
+	return append(first, columns...)
 }
 
 // Table have some internal filed in MySQL, such as DB_TRX_ID/DB_ROLL_PTR/DB_ROW_ID.
-- 
2.43.0


From 1be49a72909ab4c5c4d4117e2216ccac27fdd2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 26/53] fix: tables clustered by a unique index were read
 without their internal columns

---
 recovery/ibdata/parse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index a36dab0..1bf4548 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -315,7 +315,7 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.Name == "PRIMARY" || isClusteredUnique(idx) {
 				table.Columns = parse.moveColumns2First(idx.Fields, table.Columns)
 			}
 		}
@@ -323,6 +323,12 @@ func (parse *Parse) movePrimaryKeyFirst() {
 	}
 }
 
+// isClusteredUnique tells whether a table without PRIMARY KEY is clustered by
+// this unique index. DICT_CLUSTERED is 1.
+func isClusteredUnique(idx Indexes) bool {
+	return idx.IndexType&1 != 0 && idx.Name != "GEN_CLUST_INDEX"
+}
+
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
 	var first []Columns
@@ -345,7 +351,7 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.Name == "PRIMARY" || isClusteredUnique(idx) {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
 				RollPtrColumns := parse.addInternalColumn("DB_ROLL_PTR", tableID, idx.FieldNum+1)
-- 
2.43.0


From 903eda6900bb80ad75202ebdb6beae578fb6caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 27/53] fix: REPLACE listed the values in the order of the
 fields in the row

---
 recovery/ibdata/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 14ccd62..00f19d3 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -15,6 +16,11 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 	for _, columns := range AllColumns {
 
+		// The row has the key columns in front, the statement has none of that.
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
 		firstCol := true
 
-- 
2.43.0


From 8c9c352e95d36318752ef92b8ca89c0a0428d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 28/53] fix: a dictionary of more than one page was misread or
 crashed the reader

---
 recovery/ibdata/parse.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 1bf4548..9c8d877 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"sync"
 
@@ -62,6 +63,10 @@ func (parse *Parse) ParseDictPage(path string) error {
 	}
 
 	// Get all dict pages, and use map to store all dict page's data.
+	// The root pages first, because they tell the index ids.
+	sort.SliceStable(pages, func(i, j int) bool {
+		return systemPage.isDictRoot(pages[i]) && !systemPage.isDictRoot(pages[j])
+	})
 	for _, page := range pages {
 
 		// TODO: Parse undo page from sys data file.
@@ -69,19 +74,19 @@ func (parse *Parse) ParseDictPage(path string) error {
 		//	P.ParseUndoPageHeader(&parse)
 		//}
 
-		if page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_TABLES ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_COLUMNS ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_INDEXES ||
-			page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_FIELDS {
+		if systemPage.isDictRoot(page) {
 
 			var ds []DataDict
 			parse.parsePageHeader(&page)
-			ds = append(ds,
-				DataDict{
-					IndexId:    page.ph.PAGE_INDEX_ID,
-					PageOffset: page.fh.FIL_PAGE_OFFSET,
-					data:       page.OriginalData,
-					pos:        len(page.OriginalData) - len(page.data)})
+			// The root of a bigger tree has no rows, but node pointers.
+			if page.ph.PAGE_LEVEL == 0 {
+				ds = append(ds,
+					DataDict{
+						IndexId:    page.ph.PAGE_INDEX_ID,
+						PageOffset: page.fh.FIL_PAGE_OFFSET,
+						data:       page.OriginalData,
+						pos:        len(page.OriginalData) - len(page.data)})
+			}
 			parse.D.Store(page.ph.PAGE_INDEX_ID, ds)
 
 			logs.Debug("page offset is ", page.fh.FIL_PAGE_OFFSET,
@@ -89,9 +94,12 @@ func (parse *Parse) ParseDictPage(path string) error {
 
 		} else {
 			f := func(k, v interface{}) bool {
-				if k == page.ph.PAGE_INDEX_ID {
+				if k == page.ph.PAGE_INDEX_ID && page.fh.FIL_PAGE_TYPE == FilPageIndex {
 					ds := v.([]DataDict)
 					parse.parsePageHeader(&page)
+					if page.ph.PAGE_LEVEL != 0 {
+						return true
+					}
 					ds = append(ds,
 						DataDict{
 							IndexId:    page.ph.PAGE_INDEX_ID,
@@ -137,6 +145,14 @@ func (parse *Parse) ParseDictPage(path string) error {
 	return nil
 }
 
+// isDictRoot tells whether a page is the root of a dictionary table.
+func (systemPage Page) isDictRoot(page Page) bool {
+	return page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_TABLES ||
+		page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_COLUMNS ||
+		page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_INDEXES ||
+		page.fh.FIL_PAGE_OFFSET == systemPage.sp.DICT_HDR_FIELDS
+}
+
 // ParseDataPage read table data from data file, should identified the file
 // path/database name/table name which can confirm the table info.
 // You should identify the IsRecovery to confirm
-- 
2.43.0


From 72398d16c5849cc63c8e40b0f78c3411e4254dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 29/53] fix: columns and index fields were not sorted by
 position

---
 recovery/ibdata/parse.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9c8d877..8ae8326 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -315,14 +315,13 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 // sortColumns sort columns by field position.
 // // TODO: why some table fields is not sort?
 func (parse *Parse) sortColumns() {
-	var sortedColumns []Columns
 	for _, table := range parse.TableMap {
-		for i, field := range table.Columns {
-			if field.FieldPos == uint64(i) {
-				sortedColumns = append(sortedColumns, field)
-			}
+		columns := table.Columns
+		sort.SliceStable(columns, func(i, j int) bool { return columns[i].FieldPos < columns[j].FieldPos })
+		for _, idx := range table.Indexes {
+			fields := idx.Fields
+			sort.SliceStable(fields, func(i, j int) bool { return fields[i].ColumnPos < fields[j].ColumnPos })
 		}
-		table.Columns = sortedColumns
 	}
 }
 
-- 
2.43.0


From 74f852ff0335cca83d57651937b3057f25521265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 30/53] fix: a table that is not in the dictionary was not
 reported

---
 recovery/ibdata/parse.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8ae8326..ee3e83d 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1066,23 +1066,17 @@ func (parse *Parse) checkFieldSize(offsets *[]uint64, columns []Columns) bool {
 }
 
 func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]Columns, error) {
-	var columns []Columns
-	for _, table := range parse.TableMap {
-		if table.DBName == dbName && table.TableName == tableName {
-			columns = table.Columns
-		}
-	}
-	return columns, nil
+	table, err := parse.getTableFromDict(dbName, tableName)
+	return table.Columns, err
 }
 
 func (parse *Parse) getTableFromDict(dbName string, tableName string) (Tables, error) {
-	var table Tables
 	for _, t := range parse.TableMap {
 		if t.DBName == dbName && t.TableName == tableName {
-			table = t
+			return t, nil
 		}
 	}
-	return table, nil
+	return Tables{}, fmt.Errorf("table %s.%s is not in the data dictionary", dbName, tableName)
 }
 
 // reference /root/mysql-5.6.30/storage/innobase/include/rem0rec.ic
-- 
2.43.0


From e949865c1552f432798cd7938f7f8fb7696cf310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 31/53] fix: a system tablespace without dictionary header was
 searched for a dictionary elsewhere

---
 recovery/ibdata/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index ee3e83d..067a735 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -52,15 +52,22 @@ func (parse *Parse) ParseDictPage(path string) error {
 	}
 
 	var systemPage Page
+	var haveSystemPage bool
 	for _, page := range pages {
 		if page.fh.FIL_PAGE_OFFSET == SystemPageIdx {
 			systemPage, err = parse.parseSysPageHeader(page)
 			if err != nil {
 				return err
 			}
+			haveSystemPage = true
 			break
 		}
 	}
+	if !haveSystemPage {
+		err = errors.New("the data dictionary header page have not found")
+		logs.Error(err.Error())
+		return err
+	}
 
 	// Get all dict pages, and use map to store all dict page's data.
 	// The root pages first, because they tell the index ids.
-- 
2.43.0


From 173a3c5bd6dfcd3f40ed3d69d5f10f005b907169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 32/53] fix: redo recovery of a table that is not in the
 dictionary was not reported

---
 recovery/redo/parse.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index c6c985a..dbd6a07 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -69,6 +69,11 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	var data []byte
+	if !parse.haveRequestedTable() {
+		err := fmt.Errorf("table %s.%s is not in the data dictionary", parse.DBName, parse.TableName)
+		logs.Error(err.Error())
+		return err
+	}
 	for _, LogFile := range logFileList {
 		file, err := os.Open(LogFile)
 		if err != nil {
@@ -120,6 +125,21 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	return err
 }
 
+// haveRequestedTable tells whether the dictionary has any table of the database
+// and table name which the user identified.
+func (parse *Parse) haveRequestedTable() bool {
+	if parse.DBName == "" && parse.TableName == "" {
+		return true
+	}
+	for _, table := range parse.TableMap {
+		if (parse.DBName == "" || table.DBName == parse.DBName) &&
+			(parse.TableName == "" || table.TableName == parse.TableName) {
+			return true
+		}
+	}
+	return false
+}
+
 //	storage/innobase/include/log0log.ic
 //
 //	void meb_log_print_file_hdr(byte *block) {
-- 
2.43.0


From b45981424915a939995f7f94ca080e3fca0596e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 33/53] fix: read a whole page or redo block even if the file
 returns less at once

---
 recovery/ibdata/parse.go |  9 +++++----
 recovery/redo/parse.go   |  9 +++++++--
 recovery/utils/utils.go  | 10 ++++------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 067a735..e31acbf 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -17,6 +17,7 @@ package ibdata
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"sort"
 	"strings"
@@ -237,16 +238,16 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	for {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			logs.Error("read data from file failed, error: ", err.Error())
+			return pages, err
+		}
 		if len(data) < DefaultPageSize {
 			if len(data) != 0 {
 				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
 			}
 			break
 		}
-		if err != nil {
-			logs.Error("read data from file failed, error: ", err.Error())
-			return pages, err
-		}
 
 		// Parse the page file header.
 		page, err := parse.parseFilHeader(data)
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index dbd6a07..a94158d 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -94,8 +94,9 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		// parse left redo log block
 		for {
 			// when parsing the redo log file, record the read position.
-			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
-			if err != nil {
+			// The last block may be cut off.
+			block, _ := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+			if len(block) < LOG_BLOCK_HDR_SIZE {
 				break
 			}
 
@@ -111,6 +112,10 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
 			}
 
+			if int(blockHeader.BlockDataLen) > len(block) {
+				blockHeader.BlockDataLen = uint16(len(block))
+			}
+
 			// Add all redo block data.
 			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
 		}
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 03541b3..e2edd92 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -209,12 +210,9 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
-	if err != nil {
-		return nil, err
-	}
-
-	return bytes, nil
+	// Read may return less than wanted before the end of the file.
+	n, err := io.ReadFull(file, bytes)
+	return bytes[:n], err
 }
 
 // MatchReadFrom1 ...
-- 
2.43.0


From 3cbb336bf903424f67be409e0a1a6452031a358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 34/53] fix: stop at a redo block with an impossible data
 length instead of crashing

---
 recovery/redo/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index a94158d..ac8b8d9 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -107,6 +107,13 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 				break
 			}
 
+			// The data length of a damaged block can't be used.
+			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE ||
+				blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
+				logs.Error("the redo block data length is wrong, it is ", blockHeader.BlockDataLen)
+				break
+			}
+
 			// LOG_BLOCK_TRL_SIZE, for checksum.
 			if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
 				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
-- 
2.43.0


From 82fdbe25a679c92ee0bcc79358c4d78528cbb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 35/53] fix: do not crash on a redo log header whose creator
 has no NUL

---
 recovery/redo/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index ac8b8d9..0edc40e 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -197,7 +197,10 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	logHeaderStartLsn := utils.MatchReadFrom8(data[pos:])
 	pos += 8
 
-	creator := data[pos : bytes.IndexByte(data[pos:], 0x00)+pos]
+	creator := data[pos : pos+32]
+	if n := bytes.IndexByte(creator, 0x00); n >= 0 {
+		creator = creator[:n]
+	}
 	pos += 32 // 32 bytes, NULL terminated string, filled with NULL bytes
 
 	checksum := data[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:]
-- 
2.43.0


From 117a02e21504e808f0b6c0855e4438af63e36045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 36/53] fix: report a damaged or cut redo record instead of
 crashing

---
 recovery/redo/parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 0edc40e..1f953ee 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -277,7 +277,14 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 // There are about 55 redo log type, and every redo log type have different data.
 // We just want get the MLOG_UNDO_INSERT type redo record which store the undo info.
 // But due to the design of redo, we must parse out each type in order.
-func (parse *Parse) parseRedoBlockData(data []byte) error {
+func (parse *Parse) parseRedoBlockData(data []byte) (err error) {
+	// catch panic, the log may be damaged or end inside a record.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("redo record is damaged: %v", r)
+		}
+	}()
+
 	var pos uint64
 	for {
 		if (int64(len(data)) - int64(pos)) < 5 {
-- 
2.43.0


From 299a1bd215a9796c5e00e105443ba91b21888f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 37/53] fix: use the redo records already read when a later log
 file is cut

---
 recovery/redo/parse.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 1f953ee..d5acee9 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -69,6 +69,7 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	var data []byte
+	var readErr error
 	if !parse.haveRequestedTable() {
 		err := fmt.Errorf("table %s.%s is not in the data dictionary", parse.DBName, parse.TableName)
 		logs.Error(err.Error())
@@ -83,12 +84,16 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 
 		// parse redo log header
 		if err = parse.readRedoLogFileHeader(file); err != nil {
-			return err
+			file.Close()
+			readErr = err
+			break
 		}
 
 		// parse redo log checkpoint
 		if err = parse.readRedoLogFileCheckpoint(file); err != nil {
-			return err
+			file.Close()
+			readErr = err
+			break
 		}
 
 		// parse left redo log block
@@ -134,6 +139,9 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	if err != nil {
 		logs.Error("parse redo block data failed, error: ", err.Error())
 	}
+	if readErr != nil {
+		return readErr
+	}
 	return err
 }
 
-- 
2.43.0


From 79a21ce2b752d621a43db62285667a23ad50338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 38/53] fix: skip the rest of a damaged page instead of
 crashing

---
 recovery/ibdata/parse.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e31acbf..5f7fb5b 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -821,16 +821,14 @@ func (parse *Parse) parsePageHeader(page *Page) *Page {
 // 7.Fil Trailer
 // Read all those info and parse according to its protocol.
 // TODO: support compress and encrypt page.
-func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) [][]Columns {
+func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) (allColumns [][]Columns) {
 
-	// catch panic
-	//defer func() {
-	//	if err := recover(); err != nil {
-	//		logs.Error("skip error, the error is ", err)
-	//	}
-	//}()
-
-	var allColumns [][]Columns
+	// catch panic, the rest of a damaged page is skipped.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("skip error, the error is ", err)
+		}
+	}()
 
 	// The PAGE_BTR_SEG_LEAF length
 	pos += 10
-- 
2.43.0


From 23dbc76bc184760ff0d30dfcc907327096f5d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 39/53] fix: stop at a cycle in the record chain of a damaged
 page

---
 recovery/ibdata/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 5f7fb5b..3e7d11d 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -885,9 +885,12 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	}
 
 	var totalLen uint64
+	// The record chain of a damaged page may have a cycle.
+	visited := make(map[uint64]bool)
 	for {
 		// TODO: const
-		if offset < (16384-6) && (offset != supremum) {
+		if offset < (16384-6) && (offset != supremum) && !visited[offset] {
+			visited[offset] = true
 			var c []Columns
 			logs.Debug("offset is ", offset, " supremum is ", supremum)
 
-- 
2.43.0


From d5283c739bd1a1eda23be6c94fed3612d3c7f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 40/53] fix: report a damaged data dictionary as an error
 instead of crashing

---
 recovery/ibdata/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 3e7d11d..258dd30 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -44,7 +44,15 @@ func NewParse() *Parse {
 }
 
 // ParseDictPage get table struct in dict page.
-func (parse *Parse) ParseDictPage(path string) error {
+func (parse *Parse) ParseDictPage(path string) (err error) {
+
+	// catch panic, the rows of a damaged dictionary can't be used.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("the data dictionary is damaged: %v", r)
+			logs.Error(err.Error())
+		}
+	}()
 
 	pages, err := parse.parseFile(path)
 	if err != nil {
-- 
2.43.0


From fb47dac49422c0397179d15b5d27a71805fb96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 41/53] fix: prefer the page in its own place to an earlier
 copy with its number

---
 recovery/ibdata/parse.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 258dd30..e8162f7 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -241,9 +241,9 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	}
 	defer file.Close()
 
-	pageMap := make(map[uint64]string)
+	pageMap := make(map[uint64]int)
 
-	for {
+	for position := uint64(0); ; position++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
 		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
@@ -267,11 +267,14 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 		// Store the page.
 		page.OriginalData = data
 
-		// TODO: why have the same pages?
+		// The doublewrite buffer has (older) copies of pages, and a damaged page
+		// may have the number of another one. The page in its own place is right.
 		// Store the page into the pageMap.
-		if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+		if i, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+			pageMap[page.fh.FIL_PAGE_OFFSET] = len(pages)
 			pages = append(pages, page)
-			pageMap[page.fh.FIL_PAGE_OFFSET] = "have"
+		} else if page.fh.FIL_PAGE_OFFSET == position {
+			pages[i] = page
 		}
 	}
 	return pages, err
-- 
2.43.0


From 4c4832417e8c71bebdd5628ea497e19eefe7d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 42/53] fix: print the error when the dictionary for a redo
 recovery is not read

---
 cmd/db-recovery/command.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 4a038d0..e617f0a 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -161,6 +161,7 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		logs.Error("parse redo failed, error: ", err.Error())
+		fmt.Println("parse redo failed, error: ", err.Error())
 		return
 	}
 
-- 
2.43.0


From c93f63e572d1b4186b04366578b66bd6276c1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 43/53] fix: accept global options in front of the command

---
 cmd/db-recovery/command.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index e617f0a..5994039 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -95,8 +95,8 @@ func NewFromDataFileCommand() *cobra.Command {
 
 func FromDataFile(cmd *cobra.Command, args []string) {
 
-	// init logger
-	flag.Parse()
+	// init logger, the arguments are parsed by cobra
+	flag.CommandLine.Parse([]string{})
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
@@ -148,8 +148,8 @@ func NewFromRedoFileCommand() *cobra.Command {
 
 func FromRedoFile(cmd *cobra.Command, args []string) {
 
-	// init logger
-	flag.Parse()
+	// init logger, the arguments are parsed by cobra
+	flag.CommandLine.Parse([]string{})
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
-- 
2.43.0


From a12f7ef09b79363a6413f9e48fba88347555549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 44/53] fix: exit with an error instead of a crash when an
 option is missing

---
 cmd/db-recovery/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/db-recovery/main.go b/cmd/db-recovery/main.go
index f734abf..db4ff03 100644
--- a/cmd/db-recovery/main.go
+++ b/cmd/db-recovery/main.go
@@ -24,7 +24,8 @@ func main() {
 
 	err := rootCmd.Execute()
 	if err != nil {
-		panic(err)
+		// Execute has printed the error.
+		os.Exit(1)
 	}
 	os.Exit(0)
 }
-- 
2.43.0


From e6b46bbfcf5405fc18fb89504a4bdf79a0afcc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 45/53] fix: double backticks in database, table and column
 names

---
 recovery/ibdata/format.go |  3 ++-
 recovery/redo/parse.go    | 10 +++++-----
 recovery/utils/utils.go   |  5 +++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 00f19d3..491c59f 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -21,7 +21,8 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			return columns[i].FieldPos < columns[j].FieldPos
 		})
 
-		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
+		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (",
+			utils.EscapeIdentifier(database), utils.EscapeIdentifier(table)))
 		firstCol := true
 
 		for _, column := range columns {
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index d5acee9..2751bfa 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -576,10 +576,10 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	for i, c := range columns {
 		var SetValue string
 		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`=%s", c.FieldName,
+			SetValue = fmt.Sprintf("`%s`=%s", utils.EscapeIdentifier(c.FieldName),
 				utils.FormatLiteral(c.FieldValue, c.MySQLType, c.IsBinary))
 		} else {
-			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
+			SetValue = fmt.Sprintf("`%s`=NULL", utils.EscapeIdentifier(c.FieldName))
 		}
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
@@ -591,7 +591,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName,
+		whereCondition := fmt.Sprintf("`%s`=%s", utils.EscapeIdentifier(v.ColumnName),
 			utils.FormatLiteral(v.ColumnValue, v.MySQLType, v.IsBinary))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
@@ -600,8 +600,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		}
 	}
 
-	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", table.DBName,
-		table.TableName, SetValues, whereConditions)
+	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", utils.EscapeIdentifier(table.DBName),
+		utils.EscapeIdentifier(table.TableName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
 	fmt.Println(query)
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index e2edd92..07db1f4 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -901,6 +901,11 @@ func EscapeValue(colValue string) string {
 	return colBuffer.String()
 }
 
+// EscapeIdentifier gives a name as it stands between backticks.
+func EscapeIdentifier(name string) string {
+	return strings.Replace(name, "`", "``", -1)
+}
+
 // FormatLiteral gives a column value as SQL literal.
 func FormatLiteral(value interface{}, MySQLType uint64, IsBinary bool) string {
 	if value == nil {
-- 
2.43.0


From e329995a0b6819233d17384256ee9da13bd2e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 46/53] fix: recover the year 0000 as it was stored

---
 recovery/utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 07db1f4..fce32bb 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -612,6 +612,10 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
 			FormatYear := MatchReadFrom1(data) + 1900
+			// The year 0000 is stored as zero.
+			if FormatYear == 1900 {
+				return "0000", nil
+			}
 			return FormatYear, nil
 		default:
 			if IsUnsigned {
-- 
2.43.0


From 944913452b60365adb0caeacd8ab64b02aa7ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 47/53] fix: recover the zero timestamp as it was stored

---
 recovery/utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index fce32bb..f29a832 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -846,6 +846,10 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
+	// Zero is not the epoch, but no time.
+	if t == 0 {
+		return "0000-00-00 00:00:00"
+	}
 	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
-- 
2.43.0


From a6cf81f9f21593aa3377686c8a8cb546d18f1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 48/53] fix: print the year of a date with four digits

---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index f29a832..870992a 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -766,7 +766,7 @@ func ParseDateTime(data []byte) string {
 		ldate /= 100
 		year := ldate % 10000
 
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
 		return FormatTime
 
@@ -780,7 +780,7 @@ func ParseDateTime(data []byte) string {
 		min := (ldate & 0x0000000FC0000000) >> 30
 		sec := (ldate & 0x000000003F000000) >> 24
 
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
 		return FormatTime
 	}
@@ -800,7 +800,7 @@ func ParseDate(data []byte) string {
 	month = int(ldate % 16)
 	ldate /= 16
 	year = int(ldate)
-	DateTime := fmt.Sprintf("%02d-%02d-%02d", year, month, day)
+	DateTime := fmt.Sprintf("%04d-%02d-%02d", year, month, day)
 	return DateTime
 }
 
-- 
2.43.0


From 593053e4796459de6f8530844cd215a787324d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 49/53] fix: recover fractional seconds

---
 recovery/utils/utils.go | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 870992a..78cae00 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -576,10 +576,10 @@ func ParseData(DataType uint64, MySQLType uint64,
 		switch MySQLType {
 		// TODO: deal with version 2.
 		case MYSQL_TYPE_TIME:
-			FormatTime := ParseTime(data)
+			FormatTime := ParseTime(data[:FieldLen])
 			return FormatTime, nil
 		case MYSQL_TYPE_TIMESTAMP:
-			FormatTimeStamp := ParseTimeStamp(data)
+			FormatTimeStamp := ParseTimeStamp(data[:FieldLen])
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
 			FormatDateTime := ParseDateTime(data[:FieldLen])
@@ -746,6 +746,7 @@ func GetTimeFormat(data []byte) int {
 
 // ParseDateTime ...
 func ParseDateTime(data []byte) string {
+	fractionSize := len(data) - 5
 	// Without the old format's 8 bytes, or all 6 fractional digits.
 	if len(data) < 8 {
 		data = append(append([]byte{}, data...), make([]byte, 8-len(data))...)
@@ -782,7 +783,8 @@ func ParseDateTime(data []byte) string {
 
 		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
-		return FormatTime
+		fraction := (ldate & 0x0000000000FFFFFF) >> uint(8*(3-fractionSize))
+		return FormatTime + FormatFraction(fraction, fractionSize)
 	}
 
 	return ""
@@ -807,16 +809,22 @@ func ParseDate(data []byte) string {
 // ParseTime ...
 func ParseTime(data []byte) string {
 
-	// TODO: add time_precision and fixed_length.
 	var hour, min, sec uint
 	var IsNegative bool
 
-	ltime := int64(MatchReadFrom3(data))
-	ltime = ltime - 0x800000
-	if ltime < 0 {
+	// The fraction belongs to the number which is negative.
+	var packed int64
+	for _, b := range data {
+		packed = packed<<8 | int64(b)
+	}
+	fractionBits := uint(8 * (len(data) - 3))
+	packed -= 0x800000 << fractionBits
+	if packed < 0 {
 		IsNegative = true
-		ltime = -ltime
+		packed = -packed
 	}
+	ltime := packed >> fractionBits
+	fraction := uint64(packed - ltime<<fractionBits)
 
 	// TODO: add param or remove this code.
 	switch MySQLVersion {
@@ -829,7 +837,7 @@ func ParseTime(data []byte) string {
 		if IsNegative {
 			FormatTime = "-" + FormatTime
 		}
-		return FormatTime
+		return FormatTime + FormatFraction(fraction, len(data)-3)
 	default:
 		ltime = ltime &^ (1 << 23)
 		sec = uint(int(ltime % 60))
@@ -844,14 +852,30 @@ func ParseTime(data []byte) string {
 
 // ParseTimeStamp ...
 func ParseTimeStamp(data []byte) string {
-	// TODO: add time_precision
 	t := MatchReadFrom4(data)
+	var fraction uint64
+	for _, b := range data[4:] {
+		fraction = fraction<<8 | uint64(b)
+	}
 	// Zero is not the epoch, but no time.
-	if t == 0 {
-		return "0000-00-00 00:00:00"
+	tm := "0000-00-00 00:00:00"
+	if t != 0 {
+		tm = time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	}
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
-	return tm
+	return tm + FormatFraction(fraction, len(data)-4)
+}
+
+// FormatFraction gives the fraction of a second, which has two digits in each byte.
+func FormatFraction(fraction uint64, size int) string {
+	switch size {
+	case 1:
+		return fmt.Sprintf(".%02d", fraction)
+	case 2:
+		return fmt.Sprintf(".%04d", fraction)
+	case 3:
+		return fmt.Sprintf(".%06d", fraction)
+	}
+	return ""
 }
 
 // ParseFloat ...
-- 
2.43.0


From 166fd06d6eabe495e109bd094689f38fc85771cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 50/53] fix: compare index names exactly

---
 recovery/redo/mlog.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 33a6c14..c6276be 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -16,7 +16,6 @@ package redo
 
 import (
 	"fmt"
-	"strings"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
 	"github.com/zbdba/db-recovery/recovery/logs"
@@ -281,8 +280,8 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 	var fields []*ibdata.Fields
 
 	for _, idx := range table.Indexes {
-		if strings.TrimSpace(idx.Name) == "PRIMARY" || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
-			if strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
+		if idx.Name == "PRIMARY" || idx.Name == "GEN_CLUST_INDEX" {
+			if idx.Name == "GEN_CLUST_INDEX" {
 				fields = []*ibdata.Fields{&ibdata.Fields{ColumnPos: 0, ColumnName: "DB_ROW_ID"}}
 			} else {
 				fields = idx.Fields
-- 
2.43.0


From 85686629154a4ab59ab51098e1e6997008e10414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 51/53] fix: the log files lacked what was logged by a recovery
 that failed

---
 cmd/db-recovery/command.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 5994039..9ace349 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -103,6 +103,9 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 		return
 	}
 
+	// flush logs
+	defer logs.FlushLogs()
+
 	isRecovery := false
 
 	p := ibdata.NewParse()
@@ -121,9 +124,6 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 		fmt.Println(err)
 		return
 	}
-
-	// flush logs
-	logs.FlushLogs()
 }
 
 func NewFromRedoFileCommand() *cobra.Command {
@@ -156,6 +156,9 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 		return
 	}
 
+	// flush logs
+	defer logs.FlushLogs()
+
 	p := redo.NewParse(TableName, DBName)
 
 	err = p.ParseDictPage(SysDataFile)
@@ -170,9 +173,6 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 		fmt.Println("parse redo failed, error: ", err.Error())
 		return
 	}
-
-	// flush logs
-	logs.FlushLogs()
 }
 
 func NewVersionCommand() *cobra.Command {
-- 
2.43.0


From 03306866920c997cd75b6a8c13fa827a43525de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 52/53] fix: a redo log that cannot be read any further was
 taken for its end

---
 recovery/redo/parse.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 2751bfa..1da1db7 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -17,6 +17,7 @@ package redo
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
@@ -100,7 +101,12 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		for {
 			// when parsing the redo log file, record the read position.
 			// The last block may be cut off.
-			block, _ := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
+			if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+				logs.Error("read redo log file failed, error: ", err.Error())
+				readErr = err
+				break
+			}
 			if len(block) < LOG_BLOCK_HDR_SIZE {
 				break
 			}
@@ -132,6 +138,9 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
 		}
 		file.Close()
+		if readErr != nil {
+			break
+		}
 	}
 
 	// Start parse redo log data.
-- 
2.43.0


From 0cbbf30093a8f5f855134742c4ae07ebd2e82782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:14 +0000
Subject: [PATCH 53/53] fix: the exit status of a recovery that failed was 0

---
 cmd/db-recovery/command.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 9ace349..f5ad62f 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -76,7 +76,7 @@ func NewFromDataFileCommand() *cobra.Command {
 	jc := &cobra.Command{
 		Use:   "FromDataFile [option]",
 		Short: "recovery from data file",
-		Run:   FromDataFile,
+		RunE:  FromDataFile,
 	}
 	jc.Flags().StringVar(&SysDataFile, "SysDataFile", "", "The path of system tablespace data file.")
 	_ = jc.MarkFlagRequired("SysDataFile")
@@ -93,14 +93,17 @@ func NewFromDataFileCommand() *cobra.Command {
 	return jc
 }
 
-func FromDataFile(cmd *cobra.Command, args []string) {
+func FromDataFile(cmd *cobra.Command, args []string) error {
+
+	// the error is printed here, it only decides about the exit status
+	cmd.SilenceErrors, cmd.SilenceUsage = true, true
 
 	// init logger, the arguments are parsed by cobra
 	flag.CommandLine.Parse([]string{})
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
-		return
+		return err
 	}
 
 	// flush logs
@@ -112,7 +115,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		fmt.Println(err.Error())
-		return
+		return err
 	}
 
 	if OpType == "RecoveryData" {
@@ -122,15 +125,16 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
 		fmt.Println(err)
-		return
+		return err
 	}
+	return nil
 }
 
 func NewFromRedoFileCommand() *cobra.Command {
 	jc := &cobra.Command{
 		Use:   "FromRedoFile [option]",
 		Short: "recovery from redo file",
-		Run:   FromRedoFile,
+		RunE:  FromRedoFile,
 	}
 	jc.Flags().StringVar(&SysDataFile, "SysDataFile", "", "The path of system tablespace data file.")
 	_ = jc.MarkFlagRequired("SysDataFile")
@@ -146,14 +150,17 @@ func NewFromRedoFileCommand() *cobra.Command {
 	return jc
 }
 
-func FromRedoFile(cmd *cobra.Command, args []string) {
+func FromRedoFile(cmd *cobra.Command, args []string) error {
+
+	// the error is printed here, it only decides about the exit status
+	cmd.SilenceErrors, cmd.SilenceUsage = true, true
 
 	// init logger, the arguments are parsed by cobra
 	flag.CommandLine.Parse([]string{})
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
-		return
+		return err
 	}
 
 	// flush logs
@@ -165,14 +172,15 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	if err != nil {
 		logs.Error("parse redo failed, error: ", err.Error())
 		fmt.Println("parse redo failed, error: ", err.Error())
-		return
+		return err
 	}
 
 	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
 	if err != nil {
 		fmt.Println("parse redo failed, error: ", err.Error())
-		return
+		return err
 	}
+	return nil
 }
 
 func NewVersionCommand() *cobra.Command {
-- 
2.43.0


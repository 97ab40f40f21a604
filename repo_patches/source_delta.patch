From 60e60d71ba51dfda66f947ead07249374d15bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 01/97] fix: median of gathered neighborhood only uses the
 gathered values

At the start and end of the image part of the mask falls outside of the data.
GatherAndMedian then computed the median over the whole buffer, including
stale entries left over from the previous pixel.
---
 internal/median/gather.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 5d68a89..04aaf7e 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -34,5 +34,5 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 		}
 	}
 
-	return MedianFloat32(buffer)
+	return MedianFloat32(buffer[:num])
 }
-- 
2.43.0


From 3679a4d2711ab91703969929243d6c6793941754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 02/97] fix: 3x3 median filter on images narrower than eight
 pixels

The AVX2 version processes windows of eight columns. For narrower images the
fixup at the end of the line moved the window before the start of the line,
overwriting the first column, the previous row and memory before the image.
---
 internal/median/median3x3_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..70dae3a 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,7 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width >= 8 { // the vectorized version works on eight columns at a time
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
-- 
2.43.0


From f153519dbf6c46327b66cf0c78838c93a29449a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 03/97] fix: statistics of data whose length is not a multiple
 of four

The AVX2 versions of min/mean/max and variance read up to three values beyond
the end of the data and included them in the results.
---
 internal/stats/stats_amd64.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..5b9e68c 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,7 +23,7 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && len(data)&3 == 0 { // the vectorized version works on four values at a time
         return calcMinMeanMaxAVX2(data)
     }
     return calcMinMeanMaxPureGo(data)
@@ -35,7 +35,7 @@ func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && len(data)&3 == 0 { // the vectorized version works on four values at a time
 		return calcVarianceAVX2(data, mean)
     }
 	return calcVariancePureGo(data, mean)
-- 
2.43.0


From b475f7fa11688918f22d5faa887c6ca74317a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 04/97] fix: overwriting a FITS file with a shorter image
 leaves no old bytes behind

---
 internal/fits/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..7a78ffe 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -31,7 +31,7 @@ import (
 // Compresses with gzip if .gz or gzip suffix is present.
 func (fits *Image) WriteFile(fileName string) error {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, 0644)
 	if err!=nil { return err }
 	defer f.Close()
 
-- 
2.43.0


From 2d9bb1ae24295d23471e410be81e6e83e9b1a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 05/97] fix: report errors when completing a compressed FITS
 file

---
 internal/fits/write.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 7a78ffe..cb65c2a 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -33,20 +33,20 @@ func (fits *Image) WriteFile(fileName string) error {
 	//fmt.Println("Reading from " + fileName + "..." )
 	f, err:=os.OpenFile(fileName, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, 0644)
 	if err!=nil { return err }
-	defer f.Close()
-
-	var w io.Writer=f
 
 	// Compress gzip if .gz or .gzip suffix is present
 	ext:=path.Ext(fileName)
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
-		w=gw
-	} 
+		err=fits.Write(gw)
+		if errClose:=gw.Close(); err==nil { err=errClose } // flushes remaining compressed data
+	} else {
+		err=fits.Write(f)
+	}
 
-	return fits.Write(w)
+	if errClose:=f.Close(); err==nil { err=errClose }
+	return err
 }
 
 
-- 
2.43.0


From ad23c58e7dfa6069b48fa6c0b015d2dca5ae7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 06/97] fix: write FITS header strings once

---
 internal/fits/write.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index cb65c2a..c68408a 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,7 +94,6 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
 	// FIXME: ignoring h.Comments and h.History for now
 }
-- 
2.43.0


From e94a94b520ee482478b57e559cce6ef99076335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 07/97] fix: do not split escaped quotes across FITS CONTINUE
 cards

---
 internal/fits/write.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index c68408a..6ef8e20 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -155,22 +155,31 @@ func writeString(w io.Writer, key, value, comment string) {
 
 	// escape ' characters
 	value=strings.Join(strings.Split(value, "'"), "''")
-	// FIXME: Malformatted output ERROR if printing breaks the '' characters!
 
 	if len(value)<=18 {
 		fmt.Fprintf(w, "%-8s= '%s'%s / %-47s", key, value, strings.Repeat(" ", 18-len(value)), comment)
 	} else {
-		fmt.Fprintf(w, "%-8s= '%s&' / %-47s", key, value[0:17], comment)
-		value=value[17:]
+		n:=stringSplitPos(value, 17)
+		fmt.Fprintf(w, "%-8s= '%s&'%s / %-47s", key, value[0:n], strings.Repeat(" ", 17-n), comment)
+		value=value[n:]
 		for ; len(value)>66 ; {
-			fmt.Fprintf(w, "CONTINUE  '%s&' ", value[0:66])
-			value=value[66:]
+			n=stringSplitPos(value, 66)
+			fmt.Fprintf(w, "CONTINUE  '%s&'%s", value[0:n], strings.Repeat(" ", 1+66-n))
+			value=value[n:]
 		}
 		fmt.Fprintf(w, "CONTINUE  '%s'%s", value, strings.Repeat(" ", 50+(18-len(value))))
 	}	
 }
 
 
+// Returns the largest position up to n at which an escaped FITS header string can be split without breaking an escaped ' character
+func stringSplitPos(value string, n int) int {
+	numQuotes:=0
+	for i:=n-1; i>=0 && value[i]=='\''; i-- { numQuotes++ }
+	return n-(numQuotes&1)
+}
+
+
 // Writes a FITS header end record 
 func writeEnd(w io.Writer) {
 	fmt.Fprintf(w, "END%s", strings.Repeat(" ", 80-3))
-- 
2.43.0


From 2cbc160a74eb55b9cf50a31c881bc7f4bf0c65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 08/97] fix: FITS requires an upper case exponent letter

---
 internal/fits/write.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 6ef8e20..57153ba 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -136,7 +136,7 @@ func writeInt64(w io.Writer, key string, value int64, comment string) {
 func writeFloat32(w io.Writer, key string, value float32, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20G / %-47s", key, value, comment)
 }
 
 
@@ -144,7 +144,7 @@ func writeFloat32(w io.Writer, key string, value float32, comment string) {
 func writeFloat64(w io.Writer, key string, value float64, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20G / %-47s", key, value, comment)
 }
 
 
-- 
2.43.0


From 678617edcc61ddc9ec2ec6e697a85d2dd928cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 09/97] fix: pad FITS data with zero bytes as the standard
 requires

---
 internal/fits/write.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 57153ba..4505f63 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -211,11 +211,7 @@ func writeFloat32Array(w io.Writer, data []float32, replaceNaNs bool) error {
 	bytesWritten:=len(data)<<2
 	lastPartialBlock:=bytesWritten % 2880
 	if lastPartialBlock!=0 {
-		sb:=strings.Builder{}
-		for i:=lastPartialBlock; i<2880; i++ {
-			sb.WriteRune(' ')
-		}
-		_, err:=w.Write([]byte(sb.String()))
+		_, err:=w.Write(make([]byte, 2880-lastPartialBlock))
 		if err!=nil { return err }
 	}
 	
-- 
2.43.0


From 2ae2342ea719ff619ee23d40623fb712ab97ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 10/97] fix: read FITS data completely from readers that return
 it in pieces

---
 internal/fits/read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..5df95b4 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -184,7 +184,7 @@ func (fits *Image) readInt8Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[:bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[:bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -224,7 +224,7 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -270,7 +270,7 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -316,7 +316,7 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -363,7 +363,7 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -410,7 +410,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes : leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
-- 
2.43.0


From fe30a101b0e4ca42671f34dc0628134e2044ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 11/97] fix: FITS comments are appended to the comments

---
 internal/fits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 5df95b4..0cebd86 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -479,7 +479,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('H'): // history line
 				h.History = append(h.History, string(subValues[i]))
 			case byte('C'): // comment line
-				h.Comments = append(h.History, string(subValues[i]))
+				h.Comments = append(h.Comments, string(subValues[i]))
 			case byte('k'): // key
 				key = string(subValues[i])
 			case byte('b'): // boolean
-- 
2.43.0


From 135cdf64731652ede2e62db42c642a5e31aa19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 12/97] fix: read FITS header integers beyond 32 bits, D
 exponents, and floats without decimal point

---
 internal/fits/read.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 0cebd86..f4a332a 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -488,12 +488,14 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Bools[key] = v == byte('t') || v == byte('T')
 				}
 			case byte('i'): // int
-				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
+				val, err := strconv.ParseInt(string(subValues[i]), 10, 32)
 				if err == nil {
 					h.Ints[key] = int32(val)
+				} else if fval, err := strconv.ParseFloat(string(subValues[i]), 64); err == nil {
+					h.Floats[key] = float32(fval) // integer too large for int32
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				val, err := strconv.ParseFloat(strings.Replace(string(subValues[i]), "D", "E", 1), 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
@@ -542,7 +544,7 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
+	floa := "(?P<f>[+-]?(?:[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?|[0-9]+[ED][-+]?[0-9]+))"
 	stri := "'(?P<s>[^']*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
-- 
2.43.0


From ec423cdaf46d440016e184198470d85c53abb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 13/97] fix: read escaped quotes and continued strings in FITS
 headers

---
 internal/fits/read.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index f4a332a..cf1fb78 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -445,6 +445,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 	buf := make([]byte, fitsBlockSize)
 
+	stringKey := "" // key of the string value on the previous line, which a CONTINUE line may extend
 	for h.Length = 0; !h.End; {
 		// read next header unit
 		bytesRead, err := io.ReadFull(r, buf)
@@ -459,16 +460,18 @@ func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 			subValues := reParser.FindSubmatch(line)
 			if subValues == nil {
 				fmt.Fprintf(logWriter, "%d: Warning:Cannot parse '%s', ignoring\n", id, string(line))
+				stringKey = ""
 			} else {
 				subNames := reParser.SubexpNames()
-				h.readLine(subNames, subValues, id, lineNo, logWriter)
+				stringKey = h.readLine(subNames, subValues, id, lineNo, stringKey, logWriter)
 			}
 		}
 	}
 	return nil
 }
 
-func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int, logWriter io.Writer) {
+// Reads a header line. Returns the key of the string value which a CONTINUE on the next line would extend, or empty if none
+func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int, prevStringKey string, logWriter io.Writer) (stringKey string) {
 	key := ""
 	// ignore index 0 which is the whole line
 	for i := 1; i < len(subNames); i++ {
@@ -500,7 +503,13 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val)
 				}
 			case byte('s'): // string
-				h.Strings[key] = string(subValues[i])
+				h.Strings[key] = unescapeString(subValues[i])
+				stringKey = key
+			case byte('S'): // string continuation
+				if prev := h.Strings[prevStringKey]; prevStringKey != "" && strings.HasSuffix(prev, "&") {
+					h.Strings[prevStringKey] = strings.TrimSuffix(prev, "&") + unescapeString(subValues[i])
+					stringKey = prevStringKey
+				}
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -510,6 +519,12 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			}
 		}
 	}
+	return stringKey
+}
+
+// Unescapes doubled quotes in a FITS header string
+func unescapeString(s []byte) string {
+	return strings.Replace(string(s), "''", "'", -1)
 }
 
 func (h *Header) Print() {
@@ -545,17 +560,18 @@ func compileRE() *regexp.Regexp {
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
 	floa := "(?P<f>[+-]?(?:[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?|[0-9]+[ED][-+]?[0-9]+))"
-	stri := "'(?P<s>[^']*)'"
+	striChars := "(?:[^']|'')*"
+	stri := "'(?P<s>" + striChars + ")'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-	// missing: CONTINUE for strings
 	// missing: complex int: (nr, nr)
 	// missing: complex float: (nr, nr)
 
 	commOpt := "(?:/(?P<c>.*))?"
+	contLine := "CONTINUE" + white + "'(?P<S>" + striChars + ")'" + whiteOpt + commOpt
 	keyLine := key + whiteOpt + equals + whiteOpt + val + whiteOpt + commOpt
 
-	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + keyLine + "|" + endLine + ")$"
+	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + contLine + "|" + keyLine + "|" + endLine + ")$"
 	return regexp.MustCompile(lineRe)
 }
-- 
2.43.0


From 7a6a1f4d4bec3e75184f68b1443a10c7f3497cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 14/97] fix: scale 32 and 64 bit FITS data in double precision

---
 internal/fits/read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index cf1fb78..869ed92 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -278,7 +278,7 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 		availableBytes := leftoverBytes + bytesRead
 		for i := 0; i < (availableBytes &^ bytesPerValueMask); i += bytesPerValue {
 			val := int32((uint32(buf[i]) << 24) | (uint32(buf[i+1]) << 16) | (uint32(buf[i+2]) << 8) | (uint32(buf[i+3])))
-			v := float32(val)*fits.Bscale + fits.Bzero
+			v := float32(float64(val)*float64(fits.Bscale) + float64(fits.Bzero))
 			if v < min {
 				min = v
 			}
@@ -325,7 +325,7 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 		for i := 0; i < (availableBytes &^ bytesPerValueMask); i += bytesPerValue {
 			val := int64((uint64(buf[i]) << 56) | (uint64(buf[i+1]) << 48) | (uint64(buf[i+2]) << 40) | (uint64(buf[i+3]) << 32) |
 				(uint64(buf[i+4]) << 24) | (uint64(buf[i+5]) << 16) | (uint64(buf[i+6]) << 8) | (uint64(buf[i+7])))
-			v := float32(val)*fits.Bscale + fits.Bzero
+			v := float32(float64(val)*float64(fits.Bscale) + float64(fits.Bzero))
 			if v < min {
 				min = v
 			}
@@ -420,7 +420,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 			bits := ((uint64(buf[i]) << 56) | (uint64(buf[i+1]) << 48) | (uint64(buf[i+2]) << 40) | (uint64(buf[i+3]) << 32) |
 				(uint64(buf[i+4]) << 24) | (uint64(buf[i+5]) << 16) | (uint64(buf[i+6]) << 8) | (uint64(buf[i+7])))
 			val := math.Float64frombits(bits)
-			v := float32(val)*fits.Bscale + fits.Bzero
+			v := float32(float64(val)*float64(fits.Bscale) + float64(fits.Bzero))
 			if v < min {
 				min = v
 			}
-- 
2.43.0


From aa54a0060ecdbaa7f02a6dbb5097cb46c46fb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 15/97] fix: reject FITS files without image data or of
 unsupported size instead of crashing

---
 internal/fits/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 869ed92..fa5c668 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -110,6 +110,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 1 || naxis > 999 {
+		return fmt.Errorf("%d: Unsupported number of axes %d", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
 	fits.Pixels = int32(1)
 	for i := int32(1); i <= naxis; i++ {
@@ -118,6 +121,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 1 || int64(fits.Pixels)*int64(nai) > math.MaxInt32 {
+			return fmt.Errorf("%d: Unsupported axis size %s=%d", fits.ID, name, nai)
+		}
 		fits.Naxisn[i-1] = nai
 		fits.Pixels *= int32(nai)
 	}
-- 
2.43.0


From dea9c51bb52b38c8f0cef1e634e999a88e891488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 16/97] fix: read 8 bit and color TIFF files without crashing,
 with statistics over all channels

---
 internal/fits/tiff16.go | 63 ++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..2bd4de3 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -153,6 +154,12 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
+	if channels == 0 {
+		return fmt.Errorf("%d: Unsupported TIFF color model", f.ID)
+	}
+	if width < 1 || height < 1 || int64(width)*int64(height)*int64(channels) > math.MaxInt32 {
+		return fmt.Errorf("%d: Unsupported TIFF size %dx%d", f.ID, width, height)
+	}
 
 	// set FITS metadata
 	f.Bitpix = bitpix
@@ -169,10 +176,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
-
-	// keep running stats
-	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
+	sizeTwoThirds := sizeThird * 2
 
 	// read and convert pixels
 	if channels == 1 {
@@ -180,18 +184,14 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
-				gray := float32(c.Y)
-				f.Data[y*width+x] = gray
-
-				// update stats
-				if gray < min {
-					min = gray
-				}
-				if gray > max {
-					max = gray
+				var gray float32
+				switch c := t.At(t.Bounds().Min.X+x, t.Bounds().Min.Y+y).(type) {
+				case color.Gray:
+					gray = float32(c.Y)
+				case color.Gray16:
+					gray = float32(c.Y)
 				}
-				sum += float64(gray)
+				f.Data[y*width+x] = gray
 			}
 		}
 	} else {
@@ -199,30 +199,25 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
-				r, g, b := float32(c.R), float32(c.G), float32(c.B)
+				var r, g, b float32
+				switch c := t.At(t.Bounds().Min.X+x, t.Bounds().Min.Y+y).(type) {
+				case color.RGBA:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				case color.RGBA64:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				case color.NRGBA:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				case color.NRGBA64:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				}
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
-
-				// convert r, g, b to greyscale value
-				gray := 0.2126*r + 0.7152*g + 0.0722*b
-
-				// update stats
-				if gray < min {
-					min = gray
-				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	}
 
-	// finalize stats
-	mean := float32(sum / float64(width) / float64(height))
-	f.Stats = stats.NewStatsWithMMM(f.Data, f.Naxisn[0], min, max, mean)
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 
 	return nil
 }
@@ -238,10 +233,6 @@ func colorModelToBitpixAndChannels(m color.Model) (bitpix, channels int32) {
 		return 8, 3
 	case color.NRGBA64Model:
 		return 16, 3
-	case color.AlphaModel:
-		return 8, 1
-	case color.Alpha16Model:
-		return 16, 1
 	case color.GrayModel:
 		return 8, 1
 	case color.Gray16Model:
-- 
2.43.0


From 274cc6bae587245bd61c45a699de9c50ba451dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 17/97] fix: report errors writing TIFF and JPEG files

---
 internal/fits/tiff16.go   | 24 ++++++++++++++++--------
 internal/fits/writejpg.go | 24 ++++++++++++++++--------
 internal/ops/operator.go  |  8 ++++----
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 2bd4de3..3e54c45 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -34,12 +34,16 @@ func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) erro
 	if err != nil {
 		return err
 	}
-	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteTIFF16(writer, min, max, gamma)
+	err = f.WriteTIFF16(writer, min, max, gamma)
+	if err == nil {
+		err = writer.Flush()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	return err
 }
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
@@ -97,12 +101,16 @@ func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoTIFF16(writer, min, max, gamma)
+	err = f.WriteMonoTIFF16(writer, min, max, gamma)
+	if err == nil {
+		err = writer.Flush()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	return err
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..8197a7f 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -31,12 +31,16 @@ func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality
 	if err != nil {
 		return err
 	}
-	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteJPG(writer, min, max, gamma, quality)
+	err = f.WriteJPG(writer, min, max, gamma, quality)
+	if err == nil {
+		err = writer.Flush()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	return err
 }
 
 // Write a FITS image to JPG, using the given min, max and gamma.
@@ -94,12 +98,16 @@ func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, qua
 	if err != nil {
 		return err
 	}
-	defer file.Close()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoJPG(writer, min, max, gamma, quality)
+	err = f.WriteMonoJPG(writer, min, max, gamma, quality)
+	if err == nil {
+		err = writer.Flush()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	return err
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index ff41e01..1a7ffcc 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -432,11 +432,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
@@ -444,11 +444,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
 		}
-- 
2.43.0


From 5aed2501935e67e4a778b81542dfc23fd89f5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 18/97] fix: expand the image number in file patterns like %04d
 as documented

---
 internal/ops/operator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 1a7ffcc..11227d0 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -391,6 +392,8 @@ func (op *OpSave) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+var reFilePatternID = regexp.MustCompile("%[0-9]*d") // matches %d, %04d etc.
+
 func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err error) {
 	if op.FilePattern == "" {
 		return f, nil
@@ -399,7 +402,7 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
 	}
 	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
+	if reFilePatternID.MatchString(fileName) {
 		fileName = fmt.Sprintf(op.FilePattern, f.ID)
 	}
 	fnLower := strings.ToLower(fileName)
-- 
2.43.0


From 9eb4db820cc06edfc1bb096f86582634c1236e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 19/97] fix: clipped median and Qn terminate on clustered data,
 sample pairs uniformly and honor the upper bound

---
 internal/stats/stats.go | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..dadd01c 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -429,16 +429,28 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 	return mad
 }
 
+// Returns a pair of distinct random indices below max, which must be at least two. All pairs are equally likely.
+func randomPair(rng *fastrand.RNG, max uint32) (index1, index2 uint32) {
+	index1 = rng.Uint32n(max)
+	index2 = rng.Uint32n(max - 1)
+	if index2 >= index1 {
+		index2++
+	}
+	return index1, index2
+}
+
 // Calculates fast approximate Qn scale estimate of the (presumably large) data by subsampling the given number of pairs and taking the first quartile of that.
 // Original paper http://web.ipac.caltech.edu/staff/fmasci/home/astro_refs/BetterThanMAD.pdf
 // Original n*log n implementation technical report https://www.researchgate.net/profile/Christophe_Croux/publication/228595593_Time-Efficient_Algorithms_for_Two_Highly_Robust_Estimators_of_Scale/links/09e4150f52c2fcabb0000000/Time-Efficient-Algorithms-for-Two-Highly-Robust-Estimators-of-Scale.pdf
 // Sampling approach appears to be mine
 func FastApproxQn(data []float32, samples []float32) float32 {
 	max := uint32(len(data))
+	if max < 2 { // no pairs, no scale
+		return 0
+	}
 	rng := fastrand.RNG{}
 	for i := range samples {
-		index1 := 1 + rng.Uint32n(max-1)
-		index2 := rng.Uint32n(index1)
+		index1, index2 := randomPair(&rng, max)
 		samples[i] = float32(math.Abs(float64(data[index1] - data[index2])))
 	}
 	qn := qsort.QSelectFirstQuartileFloat32(samples) * 2.21914 // normalize to Gaussian std dev, for large numSamples >>1000.
@@ -453,12 +465,12 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 	for i := range samples {
 		var d1, d2 float32
 		for {
-			index1 := 1 + rng.Uint32n(max-1)
+			index1, index2 := randomPair(&rng, max)
 			d1 = data[index1]
 			if d1 < lowBound || d1 > highBound {
 				continue
 			}
-			d2 = data[rng.Uint32n(index1)]
+			d2 = data[index2]
 			if d2 >= lowBound && d2 <= highBound {
 				break
 			}
@@ -471,6 +483,19 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 	return qn
 }
 
+// Returns true if at least the given number of data values are within the given bounds
+func hasWithinBounds(data []float32, lowBound, highBound float32, count int) bool {
+	for _, d := range data {
+		if d >= lowBound && d <= highBound {
+			count--
+			if count <= 0 {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // Returns a rapid robust estimation of location and scale. Uses a fast approximate median based on randomized sampling,
 // iteratively sigma clipped with a fast approximate Qn based on random sampling. Exits once the absolute change in
 // location and scale is below epsilon.
@@ -481,7 +506,13 @@ func FastApproxSigmaClippedMedianAndQn(data []float32, sigmaLow, sigmaHigh float
 
 	for i := 0; ; i++ {
 		lowBound := location - sigmaLow*scale
-		highBound := location + sigmaLow*scale
+		highBound := location + sigmaHigh*scale
+
+		// random sampling within bounds needs data to draw from. If there is none to speak of, e.g. with the median
+		// in the gap between two clusters of equal values, clipping is pointless and we are done
+		if !hasWithinBounds(data, lowBound, highBound, 2+len(data)/1000) {
+			return location, scale
+		}
 
 		newLocation := FastApproxBoundedMedian(data, lowBound, highBound, samples) // sampling
 		newScale := FastApproxBoundedQn(data, lowBound, highBound, samples)        // sampling
-- 
2.43.0


From 4dae33a62b55d8e9faec451d6bc67452b4594136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 20/97] fix: IKSS estimator terminates if most values are
 equal, and iterates for any scale

---
 internal/stats/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index dadd01c..0370135 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -537,6 +537,9 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	}
 	mad := qsort.QSelectMedianFloat32(mads)
 	mads = nil
+	if mad == 0 { // more than half of the xs are equal to the median
+		return 0
+	}
 
 	ys := tmp[:len(xs)]
 	for i, x := range xs {
@@ -571,7 +574,7 @@ func IKSS(data []float32, epsilon float32, e float32) (location, scale float32)
 	tmp := make([]float32, len(data))
 
 	i, j := 0, len(xs)
-	s0 := float32(1)
+	s0 := float32(math.Inf(1))
 	for {
 		if j-i < 1 {
 			return 0, 0
-- 
2.43.0


From 9228c242914db3499663d41d161b7473ca5d00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 21/97] fix: linear regression slope was biased by n/(n+1) and
 NaN for constant values

---
 internal/stats/stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 0370135..a63dc70 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -604,16 +604,18 @@ func LinearRegression(xs, ys []float32) (slope, intercept, xmean, xstddev, ymean
 	xmean, xstddev = MeanStdDev(xs)
 	ymean, ystddev = MeanStdDev(ys)
 
-	// calculate correlation betwen the xs and ys
-	corr := float32(0)
+	// calculate covariance of the xs and ys
+	cov := float32(0)
 	for i := range xs {
 		diff := (xs[i] - xmean) * (ys[i] - ymean)
-		corr += diff
+		cov += diff
 	}
-	corr /= xstddev * ystddev * (float32(len(xs)) + 1)
+	cov /= float32(len(xs))
 
 	// calculate the regression line
-	slope = corr * ystddev / xstddev
+	if xstddev != 0 {
+		slope = cov / (xstddev * xstddev)
+	}
 	intercept = ymean - slope*xmean
 
 	return slope, intercept, xmean, xstddev, ymean, ystddev
-- 
2.43.0


From 6faf3ec9454a52349ac3781b48ee59cfafcfd1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 22/97] fix: keep cached statistics valid when scaling by a
 negative factor

---
 internal/stats/stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index a63dc70..8569e2f 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -96,6 +96,10 @@ func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	s.location = s.location*multiplier + offset
 	s.scale = s.scale * multiplier
 	s.noise = s.noise * multiplier
+	if multiplier < 0 { // reverses the order of values
+		s.min, s.max = s.max, s.min
+		s.stdDev, s.scale, s.noise = -s.stdDev, -s.scale, -s.noise
+	}
 }
 
 func (s *Stats) Min() float32 {
-- 
2.43.0


From 7316d9c8c45ea0669f76c7eedb022e375fb39626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 23/97] fix: refresh statistics after applying luminance

---
 internal/fits/rgb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..2a965a9 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -85,6 +85,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
 	hsl.Exposure+=lum.Exposure
+	hsl.Stats.Clear()
 }
 
 
-- 
2.43.0


From 5b2a517e6f8fd4db0d912a5b181c14e68cb8ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 24/97] fix: refresh statistics after unsharp masking the
 luminance channel

---
 internal/ops/hsl/hsl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..79a78da 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
-- 
2.43.0


From 11faee88c144782627c20741f273330ec4c6fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 25/97] fix: refresh statistics after gaussian blur and unsharp
 masking

---
 internal/ops/stretch/stretch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..a8965ae 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -372,6 +372,7 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -420,5 +421,6 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From 649e86e58d64bc47fbc2924da9e821bf51174d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 26/97] fix: refresh statistics after cosmetic correction and
 debayering

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..49abfa8 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -197,6 +198,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		fmt.Fprintf(c.Log, "%d: Removed %d bad bayer pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, numRemoved, 100.0*float32(numRemoved)/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -243,6 +245,7 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	}
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
-- 
2.43.0


From 6a3d4018e329d70df407cb57d141881df590c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 27/97] fix: background extraction copes with uniform cells,
 star-covered cells and clipping of equal or all cells

---
 internal/ops/pre/background.go | 43 ++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8d9a671..15a08b6 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -95,6 +95,8 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 		//LogPrintln(b.CellsString())
 	}
 
+	b.fillMissing()
+
 	b.smoothe()
 	//LogPrintln("Smooth")
 	//LogPrintln(b.CellsString())
@@ -173,14 +175,30 @@ func (b *Background) init(src []float32, sigma float32) {
 
 // Clips the top n entries from the background gradient
 func (b *Background) clip(n int32, logWriter io.Writer) {
-	buffer := make([]float32, b.GridCells)
-	copy(buffer, b.Cells)
+	buffer := make([]float32, 0, b.GridCells)
+	for _, cell := range b.Cells {
+		if !math.IsNaN(float64(cell)) {
+			buffer = append(buffer, cell)
+		}
+	}
+	if int(n) >= len(buffer) { // keep at least one cell to interpolate from
+		n = int32(len(buffer)) - 1
+	}
+	if n <= 0 {
+		return
+	}
 	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
 	buffer = nil
 
 	ignoredCells := int32(0)
 	for i, cell := range b.Cells {
-		if cell >= threshold {
+		if cell > threshold {
+			b.Cells[i] = float32(math.NaN())
+			ignoredCells++
+		}
+	}
+	for i, cell := range b.Cells { // among equal cells, clip only as many as asked for
+		if cell == threshold && ignoredCells < n {
 			b.Cells[i] = float32(math.NaN())
 			ignoredCells++
 		}
@@ -190,14 +208,22 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	//LogPrintln(b.CellsString())
 	b.OutlierCells = ignoredCells
 
-	// Then replace cells with interpolations
-	for neighbors := 8; neighbors >= 0; neighbors-- {
+}
+
+// Replaces missing cells (NaN) with interpolations from their neighbors
+func (b *Background) fillMissing() {
+	for neighbors := 8; neighbors >= 1; neighbors-- {
 		numChanged := 1
 		for numChanged > 0 {
 			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
 		}
 	}
-	buffer = nil
+	// with no valid cells at all, there is no background to be found
+	for i, cell := range b.Cells {
+		if math.IsNaN(float64(cell)) {
+			b.Cells[i] = 0
+		}
+	}
 }
 
 func (b *Background) smoothe() {
@@ -464,6 +490,9 @@ func (b Background) Subtract(dest []float32) error {
 func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
 	// Gather grid cell contents without known stars
 	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	if len(medBuffer) == 0 { // stars cover the entire cell
+		return float32(math.NaN())
+	}
 
 	// Approximate the local background histogram peak location via median. Reorders the buffer
 	median := qsort.QSelectMedianFloat32(medBuffer)
@@ -480,7 +509,7 @@ func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yE
 	// Calculate trimmed median without upward outliers
 	numSamples := 0
 	for _, v := range medBuffer {
-		if v < upperBound {
+		if v <= upperBound {
 			medBuffer[numSamples] = v
 			numSamples++
 		}
-- 
2.43.0


From ee4052867de2116042c3c8047ff20b9f0a5ee2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 28/97] fix: background extraction works for images smaller
 than two grid cells

---
 internal/ops/pre/background.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 15a08b6..eea89fa 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -71,6 +71,12 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 
 	gridCellsX := (width + gridSpacing/2) / gridSpacing
 	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsX < 1 {
+		gridCellsX = 1
+	}
+	if gridCellsY < 1 {
+		gridCellsY = 1
+	}
 	gridCells := gridCellsX * gridCellsY
 	gridSpacingX := float32(width) / float32(gridCellsX)
 	gridSpacingY := float32(height) / float32(gridCellsY)
@@ -388,12 +394,18 @@ func (b Background) Render() (dest []float32) {
 				yl--
 				yh--
 			}
+			if xl < 0 { // only one cell in this direction
+				xl, xh = 0, 0
+			}
+			if yl < 0 {
+				yl, yh = 0, 0
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
@@ -467,12 +479,18 @@ func (b Background) Subtract(dest []float32) error {
 				yl--
 				yh--
 			}
+			if xl < 0 { // only one cell in this direction
+				xl, xh = 0, 0
+			}
+			if yl < 0 {
+				yl, yh = 0, 0
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
-- 
2.43.0


From 26bfbbccc3d7df77c3d51207410a11a9ee904d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 29/97] fix: save the extracted background if asked to

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 49abfa8..86c384e 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -389,11 +389,15 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	} else {
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
+		bgFits.ID = f.ID
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
-		_, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
 		if err != nil {
 			return nil, err
 		}
+		if _, err = promises[0](); err != nil {
+			return nil, err
+		}
 		Subtract(f.Data, f.Data, bgData)
 		bgFits.Data, bgData = nil, nil
 	}
-- 
2.43.0


From 23e171487f1111b59074f64bad02e22fe0c01732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 30/97] fix: background extraction masks stars in all grid
 cells they cover

---
 internal/ops/pre/background.go | 1116 ++++++++++++++++----------------
 1 file changed, 554 insertions(+), 562 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index eea89fa..08a5f56 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -1,562 +1,554 @@
-// Copyright (C) 2020 Markus L. Noga
-//
-// This program is free software: you can redistribute it and/or modify
-// it under the terms of the GNU General Public License as published by
-// the Free Software Foundation, either version 3 of the License, or
-// (at your option) any later version.
-//
-// This program is distributed in the hope that it will be useful,
-// but WITHOUT ANY WARRANTY; without even the implied warranty of
-// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-// GNU General Public License for more details.
-//
-// You should have received a copy of the GNU General Public License
-// along with this program.  If not, see <https://www.gnu.org/licenses/>.
-
-package pre
-
-import (
-	"fmt"
-	"io"
-	"math"
-	"strings"
-
-	"github.com/mlnoga/nightlight/internal/median"
-	"github.com/mlnoga/nightlight/internal/qsort"
-	"github.com/mlnoga/nightlight/internal/star"
-)
-
-// A piecewise linear background, for automated background extraction (ABE)
-type Background struct {
-	Width        int32         // original image width
-	Height       int32         // original image height
-	GridSpacing  int32         // approximate grid spacing as given by user
-	GridSpacingX float32       // fine grid spacing for evenly sized cells, X direction
-	GridSpacingY float32       // fine grid spacing for evenly sized cells, Y direction
-	GridCellsX   int32         // number of grid cells, X direction
-	GridCellsY   int32         // number of grid cells, Y direction
-	GridCells    int32         // number of grid cells, total = X * Y
-	Cells        []float32     // grid cell values
-	OutlierCells int32         // number of outlier cells replaced with interpolation of neighboring cells
-	Max          float32       // maximum alpha, beta, gamma values
-	Min          float32       // minimum alpha, beta, gamma values
-	CellStars    [][]star.Star // stars relevant for a given cell
-	HFRFactor    float32       // multiplier for HFRs
-}
-
-func (b *Background) String() string {
-	return fmt.Sprintf("Background grid %d cells %dx%d outliers %d range [%f...%f]",
-		b.GridSpacing, b.GridCellsX, b.GridCellsY, b.OutlierCells,
-		b.Min, b.Max)
-}
-
-func (b *Background) CellsString() string {
-	sb := &strings.Builder{}
-
-	for y := int32(0); y < b.GridCellsY; y++ {
-		fmt.Fprintf(sb, "%2d:", y)
-		for x := int32(0); x < b.GridCellsX; x++ {
-			c := y*b.GridCellsX + x
-			fmt.Fprintf(sb, " %4.0f", b.Cells[c])
-		}
-		sb.WriteString("\n")
-	}
-	return sb.String()
-}
-
-// Creates new background by fitting linear gradients to grid cells of the given image, masking out areas in given mask
-func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32, backClip int32, stars []star.Star, hfrFactor float32, logWriter io.Writer) (b *Background) {
-	// Allocate space for gradient cells
-	height := int32(len(src) / int(width))
-
-	gridCellsX := (width + gridSpacing/2) / gridSpacing
-	gridCellsY := (height + gridSpacing/2) / gridSpacing
-	if gridCellsX < 1 {
-		gridCellsX = 1
-	}
-	if gridCellsY < 1 {
-		gridCellsY = 1
-	}
-	gridCells := gridCellsX * gridCellsY
-	gridSpacingX := float32(width) / float32(gridCellsX)
-	gridSpacingY := float32(height) / float32(gridCellsY)
-	cells := make([]float32, gridCells)
-	cellStars := make([][]star.Star, gridCells)
-
-	//LogPrintf("GridCells x %d y %d total %d GridSpacing x %.2f y %.2f\n", gridCellsX, gridCellsY, gridCells, gridSpacingX, gridSpacingY)
-	b = &Background{Width: width, Height: height, GridSpacing: gridSpacing,
-		GridSpacingX: gridSpacingX, GridSpacingY: gridSpacingY,
-		GridCellsX: gridCellsX, GridCellsY: gridCellsY, GridCells: gridCells, Cells: cells,
-		CellStars: cellStars, HFRFactor: hfrFactor}
-
-	b.binStarsIntoCells(stars)
-
-	b.init(src, sigma)
-	//LogPrintf("Sigma %f\n", sigma)
-	//LogPrintln(b.CellsString())
-
-	if backClip > 0 {
-		b.clip(backClip, logWriter)
-		//LogPrintf("Clip %d\n", backClip)
-		//LogPrintln(b.CellsString())
-	}
-
-	b.fillMissing()
-
-	b.smoothe()
-	//LogPrintln("Smooth")
-	//LogPrintln(b.CellsString())
-
-	b.calculateStats()
-
-	return b
-}
-
-// For each grid cell, put the stars relevant for it into the respective bin
-func (b *Background) binStarsIntoCells(stars []star.Star) {
-	cs := b.CellStars
-	for _, s := range stars {
-		sx, sy, hfr := s.X, s.Y, s.HFR*b.HFRFactor
-		// Trace 3x3 grid centered around the star position
-		for yOff := -1; yOff < 2; yOff++ {
-			for xOff := -1; xOff < 2; xOff++ {
-				x := sx + float32(xOff)*hfr
-				y := sy + float32(yOff)*hfr
-
-				cellX := int32(x / b.GridSpacingX)
-				if cellX < 0 {
-					cellX = 0
-				}
-				if cellX >= b.GridCellsX {
-					cellX = b.GridCellsX - 1
-				}
-
-				cellY := int32(y / b.GridSpacingY)
-				if cellY < 0 {
-					cellY = 0
-				}
-				if cellY >= b.GridCellsY {
-					cellY = b.GridCellsY - 1
-				}
-
-				cellOffset := cellY*b.GridCellsX + cellX
-				c := cs[cellOffset]
-				l := len(c)
-				if l == 0 || c[l-1] != s {
-					cs[cellOffset] = append(c, s)
-				}
-			}
-		}
-	}
-}
-
-// Initialize background by approximating each grid cell with a linear gradient
-func (b *Background) init(src []float32, sigma float32) {
-	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
-	medBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
-	madBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
-
-	// For all grid cells
-	for y := int32(0); y < b.GridCellsY; y++ {
-		yStart := int32(float32(y)*b.GridSpacingY + 0.5)
-		yEnd := int32((float32(y)+1)*b.GridSpacingY + 0.5)
-		if yEnd > b.Height {
-			yEnd = b.Height
-		}
-
-		for x := int32(0); x < b.GridCellsX; x++ {
-			xStart := int32(float32(x)*b.GridSpacingX + 0.5)
-			xEnd := int32((float32(x)+1)*b.GridSpacingX + 0.5)
-			if xEnd > b.Width {
-				xEnd = b.Width
-			}
-
-			//LogPrintf("y %d yS %d yE %d x %d xS %d xE %d \n", y, yStart, yEnd, x, xStart, xEnd)
-			// Fit linear gradient to masked source image within that cell
-			c := y*b.GridCellsX + x
-			b.Cells[c] = FitCell(src, b.Width, sigma, xStart, xEnd, yStart, yEnd, b.CellStars[c], b.HFRFactor, medBuffer, madBuffer)
-		}
-	}
-}
-
-// Clips the top n entries from the background gradient
-func (b *Background) clip(n int32, logWriter io.Writer) {
-	buffer := make([]float32, 0, b.GridCells)
-	for _, cell := range b.Cells {
-		if !math.IsNaN(float64(cell)) {
-			buffer = append(buffer, cell)
-		}
-	}
-	if int(n) >= len(buffer) { // keep at least one cell to interpolate from
-		n = int32(len(buffer)) - 1
-	}
-	if n <= 0 {
-		return
-	}
-	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
-	buffer = nil
-
-	ignoredCells := int32(0)
-	for i, cell := range b.Cells {
-		if cell > threshold {
-			b.Cells[i] = float32(math.NaN())
-			ignoredCells++
-		}
-	}
-	for i, cell := range b.Cells { // among equal cells, clip only as many as asked for
-		if cell == threshold && ignoredCells < n {
-			b.Cells[i] = float32(math.NaN())
-			ignoredCells++
-		}
-	}
-
-	//fmt.Fprintf(logWriter, "n=%d: %d ignored cells based on threshold %f\n", n, ignoredCells, threshold)
-	//LogPrintln(b.CellsString())
-	b.OutlierCells = ignoredCells
-
-}
-
-// Replaces missing cells (NaN) with interpolations from their neighbors
-func (b *Background) fillMissing() {
-	for neighbors := 8; neighbors >= 1; neighbors-- {
-		numChanged := 1
-		for numChanged > 0 {
-			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
-		}
-	}
-	// with no valid cells at all, there is no background to be found
-	for i, cell := range b.Cells {
-		if math.IsNaN(float64(cell)) {
-			b.Cells[i] = 0
-		}
-	}
-}
-
-func (b *Background) smoothe() {
-	tmp := make([]float32, len(b.Cells))
-	gauss3x3(tmp, b.Cells, b.GridCellsX)
-	b.Cells = tmp
-}
-
-func gauss3x3(res, data []float32, width int32) {
-	height := int32(len(data)) / width
-	for y := int32(0); y < height; y++ {
-		for x := int32(0); x < width; x++ {
-			res[y*width+x] = gauss3x3Point(data, width, height, x, y)
-		}
-	}
-}
-
-// var gauss3x3Weights=[]float32{0.195346, 0.123317, 0.077847} // sigma 1.0
-var gauss3x3Weights = []float32{0.468592, 0.107973, 0.024879} // sigma 0.5
-
-func gauss3x3Point(data []float32, width, height, x, y int32) float32 {
-	runningSum := float32(0)
-	weightSum := float32(0)
-
-	for offY := int32(-1); offY <= 1; offY++ {
-		for offX := int32(-1); offX <= 1; offX++ {
-			x2, y2 := x+offX, y+offY
-			if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
-				index := x2 + y2*width
-				d := data[index]
-				weight := gauss3x3Weights[offX*offX+offY*offY]
-				runningSum += d * weight
-				weightSum += weight
-			}
-		}
-	}
-
-	return runningSum / weightSum
-}
-
-func (bg *Background) calculateStats() {
-	mf32 := float32(math.MaxFloat32)
-	bg.Min = mf32
-	bg.Max = -mf32
-	for _, c := range bg.Cells {
-		if c < bg.Min {
-			bg.Min = c
-		}
-		if c > bg.Max {
-			bg.Max = c
-		}
-	}
-}
-
-// Smoothes a parameter
-func interpolate(params []float32, width, height int32, neighbors int) (numChanges int) {
-	temp := []float32{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
-	numChanges = 0
-
-	for y := int32(0); y < height; y++ {
-		for x := int32(0); x < width; x++ {
-			index := y*width + x
-			p := params[index]
-			if math.IsNaN(float64(p)) {
-				predict, numGathered := MedianInterpolation(params, width, height, x, y, temp)
-				if numGathered >= neighbors {
-					//LogPrintf("Replacing prediction for x%d y%d of %f with %f\n", x, y, p, predict)
-					params[index] = predict
-					numChanges++
-				}
-			}
-		}
-	}
-	return numChanges
-}
-
-var interpolOffsets = []pairOfint32{
-	{-1, -1},
-	{0, -1},
-	{1, -1},
-	{-1, 0},
-	{1, 0},
-	{-1, 1},
-	{0, 1},
-	{1, 1},
-}
-
-// Interpolate parameter from valid entries in local 1-neighborhood via median
-func MedianInterpolation(params []float32, width, height, x, y int32, temp []float32) (med float32, numGathered int) {
-	numGathered = 0
-
-	for _, off := range interpolOffsets {
-		x2, y2 := x+off.X, y+off.Y
-		if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
-			index := x2 + y2*width
-			p := params[index]
-			if !math.IsNaN(float64(p)) {
-				temp[numGathered] = p
-				numGathered++
-			}
-		}
-	}
-
-	med = median.MedianFloat32(temp[:numGathered])
-	return med, numGathered
-}
-
-// Render full background into a data array, returning the array
-func (b Background) Render() (dest []float32) {
-	dest = make([]float32, b.Width*b.Height)
-
-	srcYl := int32(-1)
-	srcYh := int32(0)
-	destYl := int32(-0.5*b.GridSpacingY - 0.5)
-	destYh := int32(0.5*b.GridSpacingY + 0.5)
-	destYSpan := 1.0 / float32(destYh-destYl)
-
-	for destY := int32(0); destY < b.Height; destY++ {
-		if destY >= destYh {
-			srcYl = srcYh
-			srcYh = srcYh + 1
-			destYl = destYh
-			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
-			destYSpan = 1.0 / float32(destYh-destYl)
-		}
-		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
-
-		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
-
-		srcXl := int32(-1)
-		srcXh := int32(0)
-		destXl := int32(-0.5*b.GridSpacingX - 0.5)
-		destXh := int32(0.5*b.GridSpacingX + 0.5)
-		destXSpan := 1.0 / float32(destXh-destXl)
-
-		for destX := int32(0); destX < b.Width; destX++ {
-			if destX >= destXh {
-				srcXl = srcXh
-				srcXh = srcXh + 1
-				destXl = destXh
-				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
-				destXSpan = 1.0 / float32(destXh-destXl)
-			}
-			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
-
-			// perform bilinear interpolation
-			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
-
-			if xl < 0 {
-				xl++
-				xh++
-			}
-			if xh >= b.GridCellsX {
-				xl--
-				xh--
-			}
-			if yl < 0 {
-				yl++
-				yh++
-			}
-			if yh >= b.GridCellsY {
-				yl--
-				yh--
-			}
-			if xl < 0 { // only one cell in this direction
-				xl, xh = 0, 0
-			}
-			if yl < 0 {
-				yl, yh = 0, 0
-			}
-			xr, yr := srcX-float32(xl), srcY-float32(yl)
-
-			xlyl := xl + yl*b.GridCellsX
-			xhyl := xh + yl*b.GridCellsX
-			xlyh := xl + yh*b.GridCellsX
-			xhyh := xh + yh*b.GridCellsX
-
-			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
-			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
-			v := vyl*(1-yr) + vyh*yr
-
-			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
-			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
-			dest[destX+destY*b.Width] = v
-		}
-	}
-
-	return dest
-}
-
-// Subtract full background from given data array, changing it in place.
-func (b Background) Subtract(dest []float32) error {
-	if int(b.Width)*int(b.Height) != len(dest) {
-		return fmt.Errorf("Background size %dx%d does not match destination image size %d", b.Width, b.Height, len(dest))
-	}
-
-	srcYl := int32(-1)
-	srcYh := int32(0)
-	destYl := int32(-0.5*b.GridSpacingY - 0.5)
-	destYh := int32(0.5*b.GridSpacingY + 0.5)
-	destYSpan := 1.0 / float32(destYh-destYl)
-
-	for destY := int32(0); destY < b.Height; destY++ {
-		if destY >= destYh {
-			srcYl = srcYh
-			srcYh = srcYh + 1
-			destYl = destYh
-			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
-			destYSpan = 1.0 / float32(destYh-destYl)
-		}
-		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
-
-		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
-
-		srcXl := int32(-1)
-		srcXh := int32(0)
-		destXl := int32(-0.5*b.GridSpacingX - 0.5)
-		destXh := int32(0.5*b.GridSpacingX + 0.5)
-		destXSpan := 1.0 / float32(destXh-destXl)
-
-		for destX := int32(0); destX < b.Width; destX++ {
-			if destX >= destXh {
-				srcXl = srcXh
-				srcXh = srcXh + 1
-				destXl = destXh
-				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
-				destXSpan = 1.0 / float32(destXh-destXl)
-			}
-			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
-
-			// perform bilinear interpolation
-			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
-
-			if xl < 0 {
-				xl++
-				xh++
-			}
-			if xh >= b.GridCellsX {
-				xl--
-				xh--
-			}
-			if yl < 0 {
-				yl++
-				yh++
-			}
-			if yh >= b.GridCellsY {
-				yl--
-				yh--
-			}
-			if xl < 0 { // only one cell in this direction
-				xl, xh = 0, 0
-			}
-			if yl < 0 {
-				yl, yh = 0, 0
-			}
-			xr, yr := srcX-float32(xl), srcY-float32(yl)
-
-			xlyl := xl + yl*b.GridCellsX
-			xhyl := xh + yl*b.GridCellsX
-			xlyh := xl + yh*b.GridCellsX
-			xhyh := xh + yh*b.GridCellsX
-
-			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
-			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
-			v := vyl*(1-yr) + vyh*yr
-
-			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
-			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
-			dest[destX+destY*b.Width] -= v
-		}
-	}
-	return nil
-}
-
-// Fit background cell to given source image, except where masked out
-func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
-	// Gather grid cell contents without known stars
-	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
-	if len(medBuffer) == 0 { // stars cover the entire cell
-		return float32(math.NaN())
-	}
-
-	// Approximate the local background histogram peak location via median. Reorders the buffer
-	median := qsort.QSelectMedianFloat32(medBuffer)
-
-	// Approximate the local background histogram peak scale via MAD
-	for i, b := range medBuffer {
-		madBuffer[i] = float32(math.Abs(float64(b - median)))
-	}
-	madBuffer = madBuffer[:len(medBuffer)]
-	mad := qsort.QSelectMedianFloat32(madBuffer)
-	stdDev := mad * 1.4826 // factor normalizes MAD to Gaussian standard deviation
-	upperBound := median + sigma*stdDev
-
-	// Calculate trimmed median without upward outliers
-	numSamples := 0
-	for _, v := range medBuffer {
-		if v <= upperBound {
-			medBuffer[numSamples] = v
-			numSamples++
-		}
-	}
-	medBuffer = medBuffer[:numSamples]
-	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
-	return trimmedMedian
-}
-
-// Calculates the median and the MAD of the given grid cell of the image, masking out stars
-func gatherWithoutStars(src []float32, width int32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, buffer []float32) (res []float32) {
-	numSamples := 0
-	for y := yStart; y < yEnd; y++ {
-	nextPixelInRow:
-		for x := xStart; x < xEnd; x++ {
-			// filter out coordinates vs. stars in this bin
-			for _, s := range stars {
-				dx, dy := float32(x)-s.X, float32(y)-s.Y
-				distSq := dx*dx + dy*dy
-				hfrSq := s.HFR * s.HFR * hfrFactor * hfrFactor
-				if distSq <= hfrSq {
-					continue nextPixelInRow
-				}
-			}
-
-			offset := x + y*width
-			buffer[numSamples] = src[offset]
-			numSamples++
-		}
-	}
-	return buffer[:numSamples]
-}
+// Copyright (C) 2020 Markus L. Noga
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+package pre
+
+import (
+	"fmt"
+	"io"
+	"math"
+	"strings"
+
+	"github.com/mlnoga/nightlight/internal/median"
+	"github.com/mlnoga/nightlight/internal/qsort"
+	"github.com/mlnoga/nightlight/internal/star"
+)
+
+// A piecewise linear background, for automated background extraction (ABE)
+type Background struct {
+	Width        int32         // original image width
+	Height       int32         // original image height
+	GridSpacing  int32         // approximate grid spacing as given by user
+	GridSpacingX float32       // fine grid spacing for evenly sized cells, X direction
+	GridSpacingY float32       // fine grid spacing for evenly sized cells, Y direction
+	GridCellsX   int32         // number of grid cells, X direction
+	GridCellsY   int32         // number of grid cells, Y direction
+	GridCells    int32         // number of grid cells, total = X * Y
+	Cells        []float32     // grid cell values
+	OutlierCells int32         // number of outlier cells replaced with interpolation of neighboring cells
+	Max          float32       // maximum alpha, beta, gamma values
+	Min          float32       // minimum alpha, beta, gamma values
+	CellStars    [][]star.Star // stars relevant for a given cell
+	HFRFactor    float32       // multiplier for HFRs
+}
+
+func (b *Background) String() string {
+	return fmt.Sprintf("Background grid %d cells %dx%d outliers %d range [%f...%f]",
+		b.GridSpacing, b.GridCellsX, b.GridCellsY, b.OutlierCells,
+		b.Min, b.Max)
+}
+
+func (b *Background) CellsString() string {
+	sb := &strings.Builder{}
+
+	for y := int32(0); y < b.GridCellsY; y++ {
+		fmt.Fprintf(sb, "%2d:", y)
+		for x := int32(0); x < b.GridCellsX; x++ {
+			c := y*b.GridCellsX + x
+			fmt.Fprintf(sb, " %4.0f", b.Cells[c])
+		}
+		sb.WriteString("\n")
+	}
+	return sb.String()
+}
+
+// Creates new background by fitting linear gradients to grid cells of the given image, masking out areas in given mask
+func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32, backClip int32, stars []star.Star, hfrFactor float32, logWriter io.Writer) (b *Background) {
+	// Allocate space for gradient cells
+	height := int32(len(src) / int(width))
+
+	gridCellsX := (width + gridSpacing/2) / gridSpacing
+	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsX < 1 {
+		gridCellsX = 1
+	}
+	if gridCellsY < 1 {
+		gridCellsY = 1
+	}
+	gridCells := gridCellsX * gridCellsY
+	gridSpacingX := float32(width) / float32(gridCellsX)
+	gridSpacingY := float32(height) / float32(gridCellsY)
+	cells := make([]float32, gridCells)
+	cellStars := make([][]star.Star, gridCells)
+
+	//LogPrintf("GridCells x %d y %d total %d GridSpacing x %.2f y %.2f\n", gridCellsX, gridCellsY, gridCells, gridSpacingX, gridSpacingY)
+	b = &Background{Width: width, Height: height, GridSpacing: gridSpacing,
+		GridSpacingX: gridSpacingX, GridSpacingY: gridSpacingY,
+		GridCellsX: gridCellsX, GridCellsY: gridCellsY, GridCells: gridCells, Cells: cells,
+		CellStars: cellStars, HFRFactor: hfrFactor}
+
+	b.binStarsIntoCells(stars)
+
+	b.init(src, sigma)
+	//LogPrintf("Sigma %f\n", sigma)
+	//LogPrintln(b.CellsString())
+
+	if backClip > 0 {
+		b.clip(backClip, logWriter)
+		//LogPrintf("Clip %d\n", backClip)
+		//LogPrintln(b.CellsString())
+	}
+
+	b.fillMissing()
+
+	b.smoothe()
+	//LogPrintln("Smooth")
+	//LogPrintln(b.CellsString())
+
+	b.calculateStats()
+
+	return b
+}
+
+// For each grid cell, put the stars relevant for it into the respective bin
+func (b *Background) binStarsIntoCells(stars []star.Star) {
+	cs := b.CellStars
+	for _, s := range stars {
+		// Trace all cells touched by the square around the star, with one pixel margin for rounding of cell edges
+		radius := s.HFR*b.HFRFactor + 1
+		cellXStart := limit(int32((s.X-radius)/b.GridSpacingX), b.GridCellsX)
+		cellXEnd := limit(int32((s.X+radius)/b.GridSpacingX), b.GridCellsX)
+		cellYStart := limit(int32((s.Y-radius)/b.GridSpacingY), b.GridCellsY)
+		cellYEnd := limit(int32((s.Y+radius)/b.GridSpacingY), b.GridCellsY)
+		for cellY := cellYStart; cellY <= cellYEnd; cellY++ {
+			for cellX := cellXStart; cellX <= cellXEnd; cellX++ {
+				cellOffset := cellY*b.GridCellsX + cellX
+				cs[cellOffset] = append(cs[cellOffset], s)
+			}
+		}
+	}
+}
+
+// Limits x to the range [0, n-1]
+func limit(x, n int32) int32 {
+	if x < 0 {
+		return 0
+	}
+	if x >= n {
+		return n - 1
+	}
+	return x
+}
+
+// Initialize background by approximating each grid cell with a linear gradient
+func (b *Background) init(src []float32, sigma float32) {
+	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
+	medBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
+	madBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
+
+	// For all grid cells
+	for y := int32(0); y < b.GridCellsY; y++ {
+		yStart := int32(float32(y)*b.GridSpacingY + 0.5)
+		yEnd := int32((float32(y)+1)*b.GridSpacingY + 0.5)
+		if yEnd > b.Height {
+			yEnd = b.Height
+		}
+
+		for x := int32(0); x < b.GridCellsX; x++ {
+			xStart := int32(float32(x)*b.GridSpacingX + 0.5)
+			xEnd := int32((float32(x)+1)*b.GridSpacingX + 0.5)
+			if xEnd > b.Width {
+				xEnd = b.Width
+			}
+
+			//LogPrintf("y %d yS %d yE %d x %d xS %d xE %d \n", y, yStart, yEnd, x, xStart, xEnd)
+			// Fit linear gradient to masked source image within that cell
+			c := y*b.GridCellsX + x
+			b.Cells[c] = FitCell(src, b.Width, sigma, xStart, xEnd, yStart, yEnd, b.CellStars[c], b.HFRFactor, medBuffer, madBuffer)
+		}
+	}
+}
+
+// Clips the top n entries from the background gradient
+func (b *Background) clip(n int32, logWriter io.Writer) {
+	buffer := make([]float32, 0, b.GridCells)
+	for _, cell := range b.Cells {
+		if !math.IsNaN(float64(cell)) {
+			buffer = append(buffer, cell)
+		}
+	}
+	if int(n) >= len(buffer) { // keep at least one cell to interpolate from
+		n = int32(len(buffer)) - 1
+	}
+	if n <= 0 {
+		return
+	}
+	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
+	buffer = nil
+
+	ignoredCells := int32(0)
+	for i, cell := range b.Cells {
+		if cell > threshold {
+			b.Cells[i] = float32(math.NaN())
+			ignoredCells++
+		}
+	}
+	for i, cell := range b.Cells { // among equal cells, clip only as many as asked for
+		if cell == threshold && ignoredCells < n {
+			b.Cells[i] = float32(math.NaN())
+			ignoredCells++
+		}
+	}
+
+	//fmt.Fprintf(logWriter, "n=%d: %d ignored cells based on threshold %f\n", n, ignoredCells, threshold)
+	//LogPrintln(b.CellsString())
+	b.OutlierCells = ignoredCells
+
+}
+
+// Replaces missing cells (NaN) with interpolations from their neighbors
+func (b *Background) fillMissing() {
+	for neighbors := 8; neighbors >= 1; neighbors-- {
+		numChanged := 1
+		for numChanged > 0 {
+			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
+		}
+	}
+	// with no valid cells at all, there is no background to be found
+	for i, cell := range b.Cells {
+		if math.IsNaN(float64(cell)) {
+			b.Cells[i] = 0
+		}
+	}
+}
+
+func (b *Background) smoothe() {
+	tmp := make([]float32, len(b.Cells))
+	gauss3x3(tmp, b.Cells, b.GridCellsX)
+	b.Cells = tmp
+}
+
+func gauss3x3(res, data []float32, width int32) {
+	height := int32(len(data)) / width
+	for y := int32(0); y < height; y++ {
+		for x := int32(0); x < width; x++ {
+			res[y*width+x] = gauss3x3Point(data, width, height, x, y)
+		}
+	}
+}
+
+// var gauss3x3Weights=[]float32{0.195346, 0.123317, 0.077847} // sigma 1.0
+var gauss3x3Weights = []float32{0.468592, 0.107973, 0.024879} // sigma 0.5
+
+func gauss3x3Point(data []float32, width, height, x, y int32) float32 {
+	runningSum := float32(0)
+	weightSum := float32(0)
+
+	for offY := int32(-1); offY <= 1; offY++ {
+		for offX := int32(-1); offX <= 1; offX++ {
+			x2, y2 := x+offX, y+offY
+			if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
+				index := x2 + y2*width
+				d := data[index]
+				weight := gauss3x3Weights[offX*offX+offY*offY]
+				runningSum += d * weight
+				weightSum += weight
+			}
+		}
+	}
+
+	return runningSum / weightSum
+}
+
+func (bg *Background) calculateStats() {
+	mf32 := float32(math.MaxFloat32)
+	bg.Min = mf32
+	bg.Max = -mf32
+	for _, c := range bg.Cells {
+		if c < bg.Min {
+			bg.Min = c
+		}
+		if c > bg.Max {
+			bg.Max = c
+		}
+	}
+}
+
+// Smoothes a parameter
+func interpolate(params []float32, width, height int32, neighbors int) (numChanges int) {
+	temp := []float32{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
+	numChanges = 0
+
+	for y := int32(0); y < height; y++ {
+		for x := int32(0); x < width; x++ {
+			index := y*width + x
+			p := params[index]
+			if math.IsNaN(float64(p)) {
+				predict, numGathered := MedianInterpolation(params, width, height, x, y, temp)
+				if numGathered >= neighbors {
+					//LogPrintf("Replacing prediction for x%d y%d of %f with %f\n", x, y, p, predict)
+					params[index] = predict
+					numChanges++
+				}
+			}
+		}
+	}
+	return numChanges
+}
+
+var interpolOffsets = []pairOfint32{
+	{-1, -1},
+	{0, -1},
+	{1, -1},
+	{-1, 0},
+	{1, 0},
+	{-1, 1},
+	{0, 1},
+	{1, 1},
+}
+
+// Interpolate parameter from valid entries in local 1-neighborhood via median
+func MedianInterpolation(params []float32, width, height, x, y int32, temp []float32) (med float32, numGathered int) {
+	numGathered = 0
+
+	for _, off := range interpolOffsets {
+		x2, y2 := x+off.X, y+off.Y
+		if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
+			index := x2 + y2*width
+			p := params[index]
+			if !math.IsNaN(float64(p)) {
+				temp[numGathered] = p
+				numGathered++
+			}
+		}
+	}
+
+	med = median.MedianFloat32(temp[:numGathered])
+	return med, numGathered
+}
+
+// Render full background into a data array, returning the array
+func (b Background) Render() (dest []float32) {
+	dest = make([]float32, b.Width*b.Height)
+
+	srcYl := int32(-1)
+	srcYh := int32(0)
+	destYl := int32(-0.5*b.GridSpacingY - 0.5)
+	destYh := int32(0.5*b.GridSpacingY + 0.5)
+	destYSpan := 1.0 / float32(destYh-destYl)
+
+	for destY := int32(0); destY < b.Height; destY++ {
+		if destY >= destYh {
+			srcYl = srcYh
+			srcYh = srcYh + 1
+			destYl = destYh
+			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
+			destYSpan = 1.0 / float32(destYh-destYl)
+		}
+		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
+
+		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
+
+		srcXl := int32(-1)
+		srcXh := int32(0)
+		destXl := int32(-0.5*b.GridSpacingX - 0.5)
+		destXh := int32(0.5*b.GridSpacingX + 0.5)
+		destXSpan := 1.0 / float32(destXh-destXl)
+
+		for destX := int32(0); destX < b.Width; destX++ {
+			if destX >= destXh {
+				srcXl = srcXh
+				srcXh = srcXh + 1
+				destXl = destXh
+				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
+				destXSpan = 1.0 / float32(destXh-destXl)
+			}
+			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
+
+			// perform bilinear interpolation
+			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
+
+			if xl < 0 {
+				xl++
+				xh++
+			}
+			if xh >= b.GridCellsX {
+				xl--
+				xh--
+			}
+			if yl < 0 {
+				yl++
+				yh++
+			}
+			if yh >= b.GridCellsY {
+				yl--
+				yh--
+			}
+			if xl < 0 { // only one cell in this direction
+				xl, xh = 0, 0
+			}
+			if yl < 0 {
+				yl, yh = 0, 0
+			}
+			xr, yr := srcX-float32(xl), srcY-float32(yl)
+
+			xlyl := xl + yl*b.GridCellsX
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
+
+			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
+			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
+			v := vyl*(1-yr) + vyh*yr
+
+			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
+			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
+			dest[destX+destY*b.Width] = v
+		}
+	}
+
+	return dest
+}
+
+// Subtract full background from given data array, changing it in place.
+func (b Background) Subtract(dest []float32) error {
+	if int(b.Width)*int(b.Height) != len(dest) {
+		return fmt.Errorf("Background size %dx%d does not match destination image size %d", b.Width, b.Height, len(dest))
+	}
+
+	srcYl := int32(-1)
+	srcYh := int32(0)
+	destYl := int32(-0.5*b.GridSpacingY - 0.5)
+	destYh := int32(0.5*b.GridSpacingY + 0.5)
+	destYSpan := 1.0 / float32(destYh-destYl)
+
+	for destY := int32(0); destY < b.Height; destY++ {
+		if destY >= destYh {
+			srcYl = srcYh
+			srcYh = srcYh + 1
+			destYl = destYh
+			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
+			destYSpan = 1.0 / float32(destYh-destYl)
+		}
+		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
+
+		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
+
+		srcXl := int32(-1)
+		srcXh := int32(0)
+		destXl := int32(-0.5*b.GridSpacingX - 0.5)
+		destXh := int32(0.5*b.GridSpacingX + 0.5)
+		destXSpan := 1.0 / float32(destXh-destXl)
+
+		for destX := int32(0); destX < b.Width; destX++ {
+			if destX >= destXh {
+				srcXl = srcXh
+				srcXh = srcXh + 1
+				destXl = destXh
+				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
+				destXSpan = 1.0 / float32(destXh-destXl)
+			}
+			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
+
+			// perform bilinear interpolation
+			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
+
+			if xl < 0 {
+				xl++
+				xh++
+			}
+			if xh >= b.GridCellsX {
+				xl--
+				xh--
+			}
+			if yl < 0 {
+				yl++
+				yh++
+			}
+			if yh >= b.GridCellsY {
+				yl--
+				yh--
+			}
+			if xl < 0 { // only one cell in this direction
+				xl, xh = 0, 0
+			}
+			if yl < 0 {
+				yl, yh = 0, 0
+			}
+			xr, yr := srcX-float32(xl), srcY-float32(yl)
+
+			xlyl := xl + yl*b.GridCellsX
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
+
+			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
+			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
+			v := vyl*(1-yr) + vyh*yr
+
+			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
+			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
+			dest[destX+destY*b.Width] -= v
+		}
+	}
+	return nil
+}
+
+// Fit background cell to given source image, except where masked out
+func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
+	// Gather grid cell contents without known stars
+	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	if len(medBuffer) == 0 { // stars cover the entire cell
+		return float32(math.NaN())
+	}
+
+	// Approximate the local background histogram peak location via median. Reorders the buffer
+	median := qsort.QSelectMedianFloat32(medBuffer)
+
+	// Approximate the local background histogram peak scale via MAD
+	for i, b := range medBuffer {
+		madBuffer[i] = float32(math.Abs(float64(b - median)))
+	}
+	madBuffer = madBuffer[:len(medBuffer)]
+	mad := qsort.QSelectMedianFloat32(madBuffer)
+	stdDev := mad * 1.4826 // factor normalizes MAD to Gaussian standard deviation
+	upperBound := median + sigma*stdDev
+
+	// Calculate trimmed median without upward outliers
+	numSamples := 0
+	for _, v := range medBuffer {
+		if v <= upperBound {
+			medBuffer[numSamples] = v
+			numSamples++
+		}
+	}
+	medBuffer = medBuffer[:numSamples]
+	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
+	return trimmedMedian
+}
+
+// Calculates the median and the MAD of the given grid cell of the image, masking out stars
+func gatherWithoutStars(src []float32, width int32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, buffer []float32) (res []float32) {
+	numSamples := 0
+	for y := yStart; y < yEnd; y++ {
+	nextPixelInRow:
+		for x := xStart; x < xEnd; x++ {
+			// filter out coordinates vs. stars in this bin
+			for _, s := range stars {
+				dx, dy := float32(x)-s.X, float32(y)-s.Y
+				distSq := dx*dx + dy*dy
+				hfrSq := s.HFR * s.HFR * hfrFactor * hfrFactor
+				if distSq <= hfrSq {
+					continue nextPixelInRow
+				}
+			}
+
+			offset := x + y*width
+			buffer[numSamples] = src[offset]
+			numSamples++
+		}
+	}
+	return buffer[:numSamples]
+}
-- 
2.43.0


From 2772288498d9a9495f02f17dc3e8b9749bc423ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 31/97] fix: sigma clipped stacking weights each value with the
 weight of its own frame

---
 internal/ops/stack/stack.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..b35fd0d 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -442,6 +442,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	medianFull  :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -484,7 +485,9 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			medianCur:=medianFull[:len(gatheredCur)] // select on a copy, as it reorders values but not weights
+			copy(medianCur, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(medianCur)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -753,12 +756,12 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			winsorized:=winsorizedFull[0:len(gatheredCur)]
+			copy(winsorized, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(winsorized) // select on the copy, as it reorders values but not weights
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
-			winsorized:=winsorizedFull[0:len(gatheredCur)]
-			copy(winsorized, gatheredCur)
 			for {
 				// replace outliers with low/high bound
 				lowBound :=median - 1.5*stdDev
-- 
2.43.0


From 5860f12cc6925d4fc574025c314b694ee9241597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 32/97] fix: noise and HFR weights are finite if all frames are
 equally good

---
 internal/ops/stack/stack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index b35fd0d..241a19c 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -249,7 +249,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			weights[i]=1
+			if maxNoise>minNoise { weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise)) }
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
@@ -261,7 +262,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			weights[i]=1
+			if maxHFR>minHFR { weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR)) }
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
-- 
2.43.0


From e752002ccdbc76c769bd2bb06c42ef700afc62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 33/97] fix: MAD stacking with weights reports an error instead
 of crashing

---
 internal/ops/stack/stack.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 241a19c..6a943b5 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -128,6 +128,10 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
 
+	if mode==StMADSigma && weights!=nil {
+		return nil, errors.New("MADSigma stacking with weights is still unimplemented")
+	}
+
 	// create return value array
 	data:=make([]float32,len(f[0].Data))
 
@@ -179,11 +183,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 				}
 
 			case StMADSigma:
-				if weights==nil {
-					clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-				} else {
-					panic("MADSigma stacking with weights is still unimplemented")
-				}
+				clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 
 			case StLinearFit:
 				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
-- 
2.43.0


From ef1ecef8245eca7e477870d06b5d9643aa6a41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 34/97] fix: stacking refuses frames of different sizes, and an
 empty set, instead of crashing

---
 internal/ops/stack/stack.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 6a943b5..98d04be 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -113,6 +113,16 @@ func (op *OpStack) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.P
 
 // Stack a set of light frames. Limits parallelism to the number of available cores
 func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, err error) {
+	// validate inputs
+	if len(f)==0 {
+		return nil, errors.New("no frames to stack")
+	}
+	for _, l:=range f {
+		if !fits.EqualInt32Slice(l.Naxisn, f[0].Naxisn) {
+			return nil, errors.New(fmt.Sprintf("%d: frame size %v differs from %v of frame %d", l.ID, l.Naxisn, f[0].Naxisn, f[0].ID))
+		}
+	}
+
 	// validate stacking modes and perform automatic mode selection if necesssary
 	mode:=op.Mode
 	if mode<StMedian || mode>StAuto {
-- 
2.43.0


From b67730fe3d6fe8e6c27b64afbe343d1df39aebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 35/97] fix: stacking fills pixels missing from all frames with
 the location of the reference frame

---
 internal/ops/stack/stack.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 98d04be..f88c1c0 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -142,6 +142,10 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 		return nil, errors.New("MADSigma stacking with weights is still unimplemented")
 	}
 
+	// pixels missing from all frames are replaced with the location of the reference frame, if there is one
+	refFrameLoc:=op.RefFrameLoc
+	if c.MatchHisto!=nil { refFrameLoc=c.MatchHisto.Location() }
+
 	// create return value array
 	data:=make([]float32,len(f[0].Data))
 
@@ -169,34 +173,34 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 			// run stacking for the given batch
 			switch mode {
 			case StMedian:
-				StackMedian(ldBatch, op.RefFrameLoc, data[lower:upper])
+				StackMedian(ldBatch, refFrameLoc, data[lower:upper])
 
 			case StMean: 
 				if weights==nil {
-					StackMean(ldBatch, op.RefFrameLoc, data[lower:upper])
+					StackMean(ldBatch, refFrameLoc, data[lower:upper])
 				} else {
-					StackMeanWeighted(ldBatch, weights, op.RefFrameLoc, data[lower:upper])
+					StackMeanWeighted(ldBatch, weights, refFrameLoc, data[lower:upper])
 				}
 
 			case StSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				}
 
 			case StWinsorSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackWinsorSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				}
 
 			case StMADSigma:
-				clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+				clipLow, clipHigh=StackMADSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 
 			case StLinearFit:
-				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+				clipLow, clipHigh=StackLinearFit(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 			} 
 
 			// update clipping totals
-- 
2.43.0


From de9bfd4da1561fbd0395a96858d451b89d05101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 36/97] fix: clipped stacking copes with sigma bounds that
 reject all values or all but one

---
 internal/ops/stack/stack.go | 50 +++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index f88c1c0..25753bb 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -441,7 +441,8 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
-				res[i]=mean
+				res[i]=mean // if no value is left, retain the mean prior to rejection
+				if len(gatheredCur)==1 { res[i]=gatheredCur[0] }
             	break
             }
 		}
@@ -510,20 +511,21 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 			lowBound :=median - sigmaLow *stdDev
 			highBound:=median + sigmaHigh*stdDev
 			prevClipped:=numClippedLow+numClippedHigh
+			numPrev:=len(gatheredCur)
 			for j:=0; j<len(gatheredCur); j++ {
 				g:=gatheredCur[j]
 				if g<lowBound {
-					gatheredCur[j]=gatheredCur[ len(gatheredCur)-1]
-					gatheredCur   =gatheredCur[:len(gatheredCur)-1]
-					weightsCur[j] =weightsCur [ len(weightsCur )-1]
-					weightsCur    =weightsCur [:len(weightsCur )-1]
+					last:=len(gatheredCur)-1
+					gatheredCur[j], gatheredCur[last]=gatheredCur[last], gatheredCur[j]
+					weightsCur [j], weightsCur [last]=weightsCur [last], weightsCur [j]
+					gatheredCur, weightsCur=gatheredCur[:last], weightsCur[:last]
 					numClippedLow++
 					j--
 				} else if g>highBound {
-					gatheredCur[j]=gatheredCur[ len(gatheredCur)-1]
-					gatheredCur   =gatheredCur[:len(gatheredCur)-1]
-					weightsCur[j] =weightsCur [ len(weightsCur )-1]
-					weightsCur    =weightsCur [:len(weightsCur )-1]
+					last:=len(gatheredCur)-1
+					gatheredCur[j], gatheredCur[last]=gatheredCur[last], gatheredCur[j]
+					weightsCur [j], weightsCur [last]=weightsCur [last], weightsCur [j]
+					gatheredCur, weightsCur=gatheredCur[:last], weightsCur[:last]
 					numClippedHigh++
 					j--
 				}
@@ -531,6 +533,8 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
+            	// if no value is left, retain the values prior to rejection
+            	if len(gatheredCur)==0 { gatheredCur, weightsCur=gatheredCur[:numPrev], weightsCur[:numPrev] }
             	// calculate weighted mean
             	weightedSum, weightsSum:=float32(0), float32(0)
             	for i,_:=range gatheredCur {
@@ -613,6 +617,10 @@ func StackMADSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh floa
 		}
 
 		// calculate mean
+		if len(gatheredCur)==0 { // if no value is left, use the median
+			res[i]=median
+			continue
+		}
 		mean:=float32(0)
 		for _,g:=range(gatheredCur) { mean+=g }
 		mean/=float32(len(gatheredCur))
@@ -711,7 +719,8 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
-				res[i]=mean
+				res[i]=mean // if no value is left, retain the mean prior to rejection
+				if len(gatheredCur)==1 { res[i]=gatheredCur[0] }
             	break
             }
         }
@@ -807,20 +816,21 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 			lowBound :=median - sigmaLow *stdDev
 			highBound:=median + sigmaHigh*stdDev
 			prevClipped:=numClippedLow+numClippedHigh
+			numPrev:=len(gatheredCur)
 			for j:=0; j<len(gatheredCur); j++ {
 				g:=gatheredCur[j]
 				if g<lowBound {
-					gatheredCur[j]=gatheredCur[ len(gatheredCur)-1]
-					gatheredCur   =gatheredCur[:len(gatheredCur)-1]
-					weightsCur[j] =weightsCur [ len(weightsCur )-1]
-					weightsCur    =weightsCur [:len(weightsCur )-1]
+					last:=len(gatheredCur)-1
+					gatheredCur[j], gatheredCur[last]=gatheredCur[last], gatheredCur[j]
+					weightsCur [j], weightsCur [last]=weightsCur [last], weightsCur [j]
+					gatheredCur, weightsCur=gatheredCur[:last], weightsCur[:last]
 					numClippedLow++
 					j--
 				} else if g>highBound {
-					gatheredCur[j]=gatheredCur[ len(gatheredCur)-1]
-					gatheredCur   =gatheredCur[:len(gatheredCur)-1]
-					weightsCur[j] =weightsCur [ len(weightsCur )-1]
-					weightsCur    =weightsCur [:len(weightsCur )-1]
+					last:=len(gatheredCur)-1
+					gatheredCur[j], gatheredCur[last]=gatheredCur[last], gatheredCur[j]
+					weightsCur [j], weightsCur [last]=weightsCur [last], weightsCur [j]
+					gatheredCur, weightsCur=gatheredCur[:last], weightsCur[:last]
 					numClippedHigh++
 					j--
 				}
@@ -828,6 +838,8 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
+            	// if no value is left, retain the values prior to rejection
+            	if len(gatheredCur)==0 { gatheredCur, weightsCur=gatheredCur[:numPrev], weightsCur[:numPrev] }
             	// calculate weighted mean
             	weightedSum, weightsSum:=float32(0), float32(0)
             	for i,_:=range gatheredCur {
@@ -922,7 +934,7 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 				}				
 			}
 
-			if left==0 || len(gatheredCur)<3{
+			if left==0 || left==len(gatheredCur) || len(gatheredCur)<3{ // if no value is left, retain the mean prior to rejection
             	break
             }
 			gatheredCur=gatheredCur[left:]
-- 
2.43.0


From c688a9464f549d6f7984e7c3f403a23ba5b7190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 37/97] fix: batched stacking does not drop frames if several
 batches are needed

---
 internal/ops/stack/stackbatches.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..2f2aba1 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -172,6 +172,7 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		if batchSize < 2 {
 			continue
 		}
+		numBatches = (numFrames + batchSize - 1) / batchSize // smaller batches may need more of them
 		if batchSize < int64(maxThreads) {
 			continue
 		}
-- 
2.43.0


From 0e2c772362a60ada8880712d5b31d3d7b31d7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 38/97] fix: transforms from three points work if two of them
 share a y coordinate, and are refused for points on a line

---
 internal/star/coord.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/star/coord.go b/internal/star/coord.go
index 9c69bc2..da180df 100644
--- a/internal/star/coord.go
+++ b/internal/star/coord.go
@@ -116,17 +116,22 @@ func IdentityTransform2D() Transform2D {
 // system, and corresponding reference points in second coordinate system.
 // p1, p2, p3 are in the first system. p1p, p2p, p3p are in the second. 
 func NewTransform2D(p1, p2, p3, p1p, p2p, p3p Point2D) (Transform2D, error) {
-	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) /
-	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
+	// determinant; relative to its terms it vanishes if the points are on a line or identical 
+	det1, det2:=(p2.Y-p1.Y)*(p3.X-p1.X), (p2.X-p1.X)*(p3.Y-p1.Y)
+	det:=det1-det2
+	if !(math.Abs(float64(det))>1e-6*(math.Abs(float64(det1))+math.Abs(float64(det2)))) {
+		return Transform2D{}, errors.New("divide by zero")
+	}
+
+	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) / det
 
-	b:=( (p2p.X-p1p.X) - a*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	b:=( (p2p.X-p1p.X)*(p3.X-p1.X) - (p3p.X-p1p.X)*(p2.X-p1.X) ) / det
 
 	c:=p1p.X - a*p1.X - b*p1.Y
 
-	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) /
-	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
+	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) / det
 
-	e:=( (p2p.Y-p1p.Y) - d*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	e:=( (p2p.Y-p1p.Y)*(p3.X-p1.X) - (p3p.Y-p1p.Y)*(p2.X-p1.X) ) / det
 
 	f:=p1p.Y - d*p1.X - e*p1.Y   
 
-- 
2.43.0


From 00361bd81452aba8d345044aeb0f39e42dd57ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 39/97] fix: noise estimation of images with missing pixels
 leaves these out instead of yielding NaN

---
 internal/stats/noise.go | 21 +++++++++++++++++++++
 internal/stats/stats.go |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/internal/stats/noise.go b/internal/stats/noise.go
index 730f043..24a9c2c 100644
--- a/internal/stats/noise.go
+++ b/internal/stats/noise.go
@@ -53,3 +53,24 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
     factor:=float32(math.Sqrt(0.5*math.Pi)) / (6 * float32(width-2) * float32(height - 2))
     return sum*factor
 }
+
+// Estimate the level of gaussian noise on a natural image, leaving out neighborhoods with missing values (NaN).
+// Returns zero if there are no complete neighborhoods.
+func estimateNoiseSkippingNaNs(data []float32, width int32) float32 {
+    height:=int32(len(data))/width
+    sum, count:=float64(0), 0
+    for y:=int32(1); y<height-1; y++ {
+    	for x:=int32(1); x<width-1; x++ {
+    		i:=y*width+x
+	    	conv:=float32(0)
+	    	for j, weight:=range enWeights {
+				conv+=data[i + (int32(j)/3-1)*width + int32(j)%3-1]*weight
+	    	}
+	    	if math.IsNaN(float64(conv)) { continue }
+	    	sum+=math.Abs(float64(conv))
+	    	count++
+	    }
+    }
+    if count==0 { return 0 }
+    return float32(math.Sqrt(0.5*math.Pi) / 6 * sum / float64(count))
+}
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 8569e2f..013540d 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -173,6 +173,9 @@ func (s *Stats) Noise() float32 {
 			panic("Cannot calculate stats on nil data")
 		}
 		s.noise = EstimateNoise(s.data, s.width)
+		if math.IsNaN(float64(s.noise)) { // e.g. out of bounds pixels of an aligned image
+			s.noise = estimateNoiseSkippingNaNs(s.data, s.width)
+		}
 		s.haveNoise = true
 	}
 	return s.noise
-- 
2.43.0


From b5b9ffedb5fdb9efb9dab329fb8cbc98f2531031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 40/97] fix: alignment to a reference with fewer than three
 usable stars skips the frame instead of crashing

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 8b12768..2d32897 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -132,6 +132,7 @@ func generateTriangles(stars []Star, indices []int, scaleFactor float32) []Trian
 // Finds the closest matches between the given triangles and the reference triangles
 func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match) {
 	kdt:=a.RefTri3DT
+	if len(kdt)==0 { return nil } // too few reference stars for a triangle
 	matches=make([]Match, len(triangles))
 
 	for i, tri := range triangles {
-- 
2.43.0


From 903421918bc5942dfc4458d9f32bab63495429ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 41/97] fix: alignment filling with the reference location
 reports a missing reference instead of crashing

---
 internal/ops/post/postprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index a31d57c..09cbdd2 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -167,6 +167,9 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		case OOBModeNaN:
 			outOfBounds = float32(math.NaN())
 		case OOBModeRefLocation:
+			if c.MatchHisto == nil {
+				return nil, errors.New("Unable to fill with reference location without reference frame")
+			}
 			outOfBounds = c.MatchHisto.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
-- 
2.43.0


From 3cc9b892678caf26093c341878194ba40ee15183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 42/97] fix: aligned frames keep their star size, file name and
 transformation, so HFR weights work

---
 internal/fits/project.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 785bc5b..4c52565 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -33,7 +33,8 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 	// Create new FITS image for the result
 	destWidth := destNaxisn[0]
 	res = NewImageFromNaxisn(destNaxisn, nil)
-	res.ID, res.Exposure = img.ID, img.Exposure
+	res.ID, res.FileName, res.Exposure, res.HFR = img.ID, img.FileName, img.Exposure, img.HFR
+	res.Trans, res.Residual = img.Trans, img.Residual
 
 	// Resample image from the target coordinate system PoV
 	d := img.Data
-- 
2.43.0


From fc177a17c33d317ec7845992826c62f6f4b5bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 43/97] fix: resampling projects all channels of color images

---
 internal/fits/project.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 4c52565..6a94756 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -32,15 +32,25 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 
 	// Create new FITS image for the result
 	destWidth := destNaxisn[0]
-	res = NewImageFromNaxisn(destNaxisn, nil)
+	destHeight := destNaxisn[1]
+	res = NewImageFromNaxisn(append([]int32{destWidth, destHeight}, img.Naxisn[2:]...), nil) // retain all channels
 	res.ID, res.FileName, res.Exposure, res.HFR = img.ID, img.FileName, img.Exposure, img.HFR
 	res.Trans, res.Residual = img.Trans, img.Residual
 
 	// Resample image from the target coordinate system PoV
-	d := img.Data
-	origWidth := img.Naxisn[0]
+	origWidth, origHeight := img.Naxisn[0], img.Naxisn[1]
+	origPixels, destPixels := int(origWidth)*int(origHeight), int(destWidth)*int(destHeight)
+	for ch := 0; ch < len(img.Data)/origPixels; ch++ {
+		projectChannel(res.Data[ch*destPixels:(ch+1)*destPixels], destWidth, destHeight,
+			img.Data[ch*origPixels:(ch+1)*origPixels], origWidth, origHeight, invTrans, outOfBounds)
+	}
+	return res, nil
+}
 
-	for row := int32(0); row < destNaxisn[1]; row++ {
+// Projects a single channel d of an image onto dest, given the inverse transformation
+func projectChannel(dest []float32, destWidth, destHeight int32, d []float32, origWidth, origHeight int32,
+	invTrans star.Transform2D, outOfBounds float32) {
+	for row := int32(0); row < destHeight; row++ {
 		for col := int32(0); col < destWidth; col++ {
 			pt := star.Point2D{X: float32(col), Y: float32(row)}
 			proj := invTrans.Apply(pt)
@@ -50,14 +60,14 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			xh, yh := xl+1, yl+1
 			xr, yr := proj.X-float32(xl), proj.Y-float32(yl)
 
-			if xl < 0 || xh >= origWidth || yl < 0 || yh >= img.Naxisn[1] {
+			if xl < 0 || xh >= origWidth || yl < 0 || yh >= origHeight {
 				// Replace out of bounds values with not a number.
 				// Stacking will exclude NaNs. Note, however, that
 				// other operations will fail miserably. Including
 				// all partitioning and sorting-based operations
 				// like median, because IEEE NaN does not compare
 				// equal to itself.
-				res.Data[col+row*destWidth] = outOfBounds
+				dest[col+row*destWidth] = outOfBounds
 				continue
 			}
 
@@ -70,8 +80,7 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			vyh := d[xlyh]*(1-xr) + d[xhyh]*xr
 			v := vyl*(1-yr) + vyh*yr
 
-			res.Data[col+row*destWidth] = v
+			dest[col+row*destWidth] = v
 		}
 	}
-	return res, nil
 }
-- 
2.43.0


From 775c0726808fef7c6be1155118432425711df4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 44/97] fix: resampling keeps pixels exactly on the last row
 and column

---
 internal/fits/project.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 6a94756..7045ba1 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -57,8 +57,14 @@ func projectChannel(dest []float32, destWidth, destHeight int32, d []float32, or
 
 			// perform bilinear interpolation
 			xl, yl := int32(math.Floor(float64(proj.X))), int32(math.Floor(float64(proj.Y)))
-			xh, yh := xl+1, yl+1
 			xr, yr := proj.X-float32(xl), proj.Y-float32(yl)
+			if xl == origWidth-1 && xr == 0 && xl > 0 { // exactly on the last column
+				xl, xr = xl-1, 1
+			}
+			if yl == origHeight-1 && yr == 0 && yl > 0 { // exactly on the last row
+				yl, yr = yl-1, 1
+			}
+			xh, yh := xl+1, yl+1
 
 			if xl < 0 || xh >= origWidth || yl < 0 || yh >= origHeight {
 				// Replace out of bounds values with not a number.
-- 
2.43.0


From 73c0d5c871b3cbd43e7a5dd3042df355826fe1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 45/97] fix: debanding copes with window 0, rows entirely above
 the threshold and rows without level

---
 internal/ops/pre/banding.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index c2a3eae..373e42a 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,6 +88,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
+		if numSamples==0 { numSamples=copy(rowBuffer, ds) } // entire row above threshold, consider all of it
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
@@ -115,7 +116,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		medianOfRowPercentiles:=qsort.QSelectMedianFloat32(rowPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfRowPercentiles / rowPercentiles[row]
+		factor:=debandFactor(medianOfRowPercentiles, rowPercentiles[row])
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
@@ -131,6 +132,14 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	return f, nil
 }
 
+// Calculates the factor to bring the given level to the given median level.
+// Levels which are zero, e.g. of a dead row, or of opposite sign cannot be corrected with a factor. Returns 1 for these
+func debandFactor(medianLevel, level float32) float32 {
+	factor:=medianLevel / level
+	if factor>0 && factor<=math.MaxFloat32 { return factor }
+	return 1
+}
+
 func fixWindowEdge(window []float32, missing int32) {
   // calculate medians of the left and right halves of the window
   left:=make([]float32, len(window)/2)
@@ -195,7 +204,7 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Percentile<=0 || op.Percentile>=100 { return f, nil }
+	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
@@ -224,6 +233,10 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 				numSamples++
 			}
 		}
+		if numSamples==0 { // entire column above threshold, consider all of it
+			for row:=int32(0); row<numRows; row++ { colBuffer[row]=f.Data[row*numCols + col] }
+			numSamples=int(numRows)
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
@@ -254,7 +267,7 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 		medianOfColPercentiles:=qsort.QSelectMedianFloat32(colPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfColPercentiles / colPercentiles[col]
+		factor:=debandFactor(medianOfColPercentiles, colPercentiles[col])
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
-- 
2.43.0


From d4e26afed3848041dda41eddfaaf18b13e073268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 46/97] fix: binning keeps all channels of color images, and
 refuses images smaller than one bin

---
 internal/fits/fits.go          | 28 ++++++++++++++++------------
 internal/ops/pre/preprocess.go |  5 ++++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..562bb4b 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -165,7 +165,8 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	binnedPixels:=int32(1)
 	binnedNaxisn:=make([]int32, len(src.Naxisn))
 	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
+		binnedN:=originalN
+		if i<2 { binnedN/=n } // keep color channels
 		binnedNaxisn[i]=binnedN
 		binnedPixels*=binnedN
 	}
@@ -176,19 +177,22 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
-	for y:=int32(0); y<binnedNaxisn[1]; y++ {
-		for x:=int32(0); x<binnedNaxisn[0]; x++ {
-			sum:=float32(0)
-			for yoff:=int32(0); yoff<n; yoff++ {
-				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
-					sum+=src.Data[origPos]
+	srcPlane, binnedPlane:=src.Naxisn[0]*src.Naxisn[1], binnedNaxisn[0]*binnedNaxisn[1]
+	for plane:=int32(0); plane*srcPlane<int32(len(src.Data)); plane++ { // for all color channels
+		for y:=int32(0); y<binnedNaxisn[1]; y++ {
+			for x:=int32(0); x<binnedNaxisn[0]; x++ {
+				sum:=float32(0)
+				for yoff:=int32(0); yoff<n; yoff++ {
+					for xoff:=int32(0); xoff<n; xoff++ {
+						origPos:=plane*srcPlane + (y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
+						sum+=src.Data[origPos]
+					}
 				}
+				avg:=sum*normalizer
+				binnedPos:=plane*binnedPlane + y*binned.Naxisn[0] + x
+				binned.Data[binnedPos]=avg
 			}
-			avg:=sum*normalizer
-			binnedPos:=y*binned.Naxisn[0] + x
-			binned.Data[binnedPos]=avg
-		}		
+		}
 	}
 
 	return binned
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 86c384e..2b11bbe 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -328,8 +328,11 @@ func (op *OpBin) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err e
 	if op.BinSize <= 1 {
 		return f, nil
 	}
+	if f.Naxisn[0] < op.BinSize || f.Naxisn[1] < op.BinSize {
+		return nil, fmt.Errorf("%d: image size %s too small for %dx%d binning", f.ID, f.DimensionsToString(), op.BinSize, op.BinSize)
+	}
 	f = fits.NewImageBinNxN(f, op.BinSize)
-	fmt.Fprintf(c.Log, "%d: After %xx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
+	fmt.Fprintf(c.Log, "%d: After %dx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
 	return f, nil
 }
 
-- 
2.43.0


From b2d0770d5ca11efaa40b91a806b904179ba9fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 47/97] fix: debayering refuses images smaller than one filter
 cell instead of crashing

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2b11bbe..617abea 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -239,10 +239,14 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if op.Channel == "" || op.ColorFilterArray == "" {
 		return f, nil
 	}
-	f.Data, f.Naxisn[0], err = DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
+	data, width, err := DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
 	if err != nil {
 		return nil, err
 	}
+	if len(data) == 0 {
+		return nil, fmt.Errorf("%d: image size %s too small for debayering", f.ID, f.DimensionsToString())
+	}
+	f.Data, f.Naxisn[0] = data, width
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
 	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
-- 
2.43.0


From cb8ac7ac2d25728409d38c3cdc7d987b095aaf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 48/97] fix: bad pixel removal on raw mosaic frames covers the
 first row and column for all filter arrays

---
 internal/ops/pre/badpixels_bayer.go | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/internal/ops/pre/badpixels_bayer.go b/internal/ops/pre/badpixels_bayer.go
index 10279aa..ec49aab 100644
--- a/internal/ops/pre/badpixels_bayer.go
+++ b/internal/ops/pre/badpixels_bayer.go
@@ -39,7 +39,7 @@ func CosmeticCorrectionBayer(data []float32, width int32, debayer, cfa string, s
 	case "G", "g":
 		return CosmeticCorrectionBayerGreen(median, data, width, xOffset, yOffset, sigmaLow, sigmaHigh), nil
 	case "B", "b":
-		return CosmeticCorrectionBayerRedOrBlue(median, data, width, xOffset+1, yOffset+1, sigmaLow, sigmaHigh), nil
+		return CosmeticCorrectionBayerRedOrBlue(median, data, width, (xOffset+1)&1, (yOffset+1)&1, sigmaLow, sigmaHigh), nil
 	default:
 		return 0, errors.New("Unknown debayering value " + debayer)
 	}
@@ -148,10 +148,8 @@ func MedianFilterBayerGreen(res, data []float32, width, xOffset, yOffset int32)
 	}*/
 
 	// for all RGGB boxes
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+	for y := int32(0); y < height; y += 1 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 {
 			numGathered := 0
 			// for the local neighborhood
 			for _, nOffsets := range gOffsets {
@@ -245,14 +243,11 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum := float32(0)
 	deltaNum := int32(0)
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y += 1 {
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaRowSum += delta
@@ -267,14 +262,11 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum = float32(0)
 	deltaNum = int32(0)
-	colorOffsetX = int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y += 1 {
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaSq := (delta - mean) * (delta - mean)
@@ -333,12 +325,9 @@ func ReplaceOutliersBayerGreen(median, data []float32, width, xOffset, yOffset i
 	numRemoved = 0
 
 	// for all rows
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-
+	for y := int32(0); y < height; y += 1 {
 		// for all pixels in the row
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 {
 			index := y*width + x
 			delta := data[index] - median[index]
 			if delta < threshLow || delta > threshHigh {
-- 
2.43.0


From 1836def8e9555ed76300aeadbabd573d78732d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 49/97] fix: stars near the left and right border do not pick
 up light from the opposite border

---
 internal/star/findstars.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 2ccc4a8..b524bbd 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -270,6 +270,16 @@ func filterOutOverlaps(stars []Star, width, height, radius int32) []Star {
 	return stars[:numRemainingStars]
 }
 
+// Returns the range of x offsets within radius around the given index which stay inside its row,
+// to avoid picking up light from the opposite border of the image
+func clipToRow(index, width, radius int32) (xMin, xMax int32) {
+	xMin, xMax=-radius, radius
+	x:=index % width
+	if xMin < -x        { xMin=-x        }
+	if xMax > width-1-x { xMax=width-1-x }
+	return xMin, xMax
+}
+
 // Shifts each star to its floating point-valued center of mass. Modifies stars in place
 func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold float32, radius int32) (sumOfShifts float32) {
 	// for all stars
@@ -282,8 +292,9 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			// calculate star mass and first moments from current x,y
 			xMoment, yMoment:=float32(0), float32(0)
 			mass:=float32(0)
+			xMin, xMax:=clipToRow(s.Index, width, radius)
 			for y:=-radius; y<=radius; y++ {
-				for x:=-radius; x<=radius; x++ {
+				for x:=xMin; x<=xMax; x++ {
 					index:=s.Index+y*int32(width)+x
 					value:=float32(0)
 					if index>=0 && int(index)<len(data) {
@@ -333,6 +344,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 		moment, mass, pixels:=float32(0), float32(0), int32(0)
 		rad:=int32(math.Ceil(float64(radius)))
 		distSqLimit:=int32(math.Ceil(float64(radius+1e-8)*float64(radius+1e-8)))
+		xMin, xMax:=clipToRow(s.Index, width, rad)
 		for y:=-rad; y<=rad; y++ {
 			for x:=-rad; x<=rad; x++ {
 				distSq:=x*x+y*y
@@ -341,7 +353,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if x>=xMin && x<=xMax && index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
@@ -367,7 +379,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 				index:=s.Index+y*width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if x>=xMin && x<=xMax && index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
-- 
2.43.0


From df27de6a6de6373b46066aa351eab3eb0de40b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 50/97] fix: star indices round to the nearest pixel also for
 shifts to the left and up

---
 internal/star/findstars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index b524bbd..49a0fc7 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -319,7 +319,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			preciseDeltaX:=newX-s.X
 			preciseDeltaY:=newY-s.Y
 			shiftSquared  =preciseDeltaX*preciseDeltaX + preciseDeltaY*preciseDeltaY
-			index:=s.Index + width*int32(deltaY+0.5)+int32(deltaX+0.5)
+			index:=s.Index + width*int32(math.Floor(float64(deltaY)+0.5))+int32(math.Floor(float64(deltaX)+0.5))
 			value:=float32(0)
 			if index>=0 && int(index)<len(data) {
 				value=float32(data[index])
-- 
2.43.0


From 2860edff57de7a0eb976e6248dda860197227596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 51/97] fix: the half-flux radius of an image without stars is
 zero, not NaN

---
 internal/star/findstars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 49a0fc7..ee51814 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -403,6 +403,6 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 
 		avgHFR+=float32(hfr)
 	}
-	avgHFR/=float32(numRemainingStars)
+	if numRemainingStars>0 { avgHFR/=float32(numRemainingStars) }
 	return stars[:numRemainingStars], avgHFR
 }
-- 
2.43.0


From 5666aa48c9ec3b15682b62be606d8728ce766172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:57 +0000
Subject: [PATCH 52/97] fix: HFR weighted stacking reports frames without star
 size instead of yielding NaN

---
 internal/ops/stack/stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 25753bb..2cf38ec 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -270,6 +270,7 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
 		for i:=0; i<len(f); i+=1 {
 			h:=f[i].HFR
+			if !(h>0) { return nil, errors.New(fmt.Sprintf("%d: Missing half-flux radius for HFR-weighted stacking", f[i].ID)) }
 			if h<minHFR { minHFR=h }
 			if h>maxHFR { maxHFR=h }
 		}		
-- 
2.43.0


From c052c8dbc5fbe9c2a822511ba29dcbc13b4309a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 53/97] fix: circles in star images do not wrap around to the
 opposite border

---
 internal/fits/fits.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index 562bb4b..00eff22 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -205,6 +205,7 @@ func (f* Image) FillCircle(xc,yc,r,color float32) {
 		for x:=-r; x<=r; x+=0.5 {
 			distSq:=y*y+x*x
 			if distSq<=r*r+1e-6 {
+				if xc+x<0 || xc+x>=float32(f.Naxisn[0]) { continue } // do not wrap around to the opposite border
 				index:=int32(xc+x) + int32(yc+y)*(f.Naxisn[0])
 				if index>=0 && index<int32(len(f.Data)) {
 					f.Data[index]=color
-- 
2.43.0


From 7ddf01fb1314acb21310e34a47ff052197456331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 54/97] fix: midtones correction maps values below the black
 point to black, not below it

---
 internal/fits/pixelops.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..c3b6fc5 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -219,9 +219,9 @@ func pfMidtones(data []float32, params interface{}) {
 	for i, d:=range data {
 		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
 		if value<clipLow { 
-			value=0 
+			value=clipLow 
 	    } else if value>clipHigh {
-	    	value=1
+	    	value=clipHigh
 	    }
 		data[i]=(value-clipLow)*scaler
 	}
-- 
2.43.0


From 105b7a0be80393fb253440fb731a210accfa2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 55/97] fix: iterative stretching also brings the location down
 to its target if the last gamma step already reached the scale

---
 internal/ops/hsl/hsl.go         | 2 +-
 internal/ops/stretch/stretch.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 79a78da..2fdfb9d 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -692,7 +692,7 @@ func (op *OpHSLStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *f
 			fmt.Fprintf(c.Log, "applying gamma %.3g\n", idealGamma)
 			f.ApplyGammaToChannel(2, idealGamma)
 			//f.ApplyPartialGamma(0, 0.95, idealGamma)
-		} else if loc>op.Location*0.99 && scale<op.Scale {
+		} else if (loc>op.Location*0.99 && scale<op.Scale) || (i>0 && loc>op.Location*1.01) {
 			fmt.Fprintf(c.Log, "scaling black to move location to %.2f%%...\n", op.Location*100)
 			f.ShiftBlackToMoveChannel(2, loc, op.Location)
 		} else {
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index a8965ae..98ac92c 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -147,7 +147,7 @@ func (op *OpStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *fits
 			fmt.Fprintf(c.Log, "applying gamma %.3g\n", idealGamma)
 			f.ApplyGamma(idealGamma)
 			//f.ApplyPartialGamma(0, 0.95, idealGamma)
-		} else if loc>op.Location*0.99 && scale<op.Scale {
+		} else if (loc>op.Location*0.99 && scale<op.Scale) || (i>0 && loc>op.Location*1.01) {
 			fmt.Fprintf(c.Log, "scaling black to move location to %.2f%%...\n", op.Location*100)
 			f.ShiftBlackToMove(loc, op.Location)
 		} else {
-- 
2.43.0


From 82b5e1926fb1f9c97c8a5b07be818f6c56d339f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 56/97] fix: shifting the black point leaves an all-white image
 as is instead of yielding NaN and crashing

---
 internal/fits/pixelops.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index c3b6fc5..952afe5 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -647,6 +647,7 @@ func (f* Image) ScaleRGB(r, g, b float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMove(before, after float32) {
+    if before>=1 { return } // no black point moves white
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
@@ -661,6 +662,7 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
+    if before>=1 { return } // no black point moves white
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
-- 
2.43.0


From 056817227d47178a0192657aa737b6cdcbed7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 57/97] fix: gaussian blur and unsharp masking work if the
 kernel is larger than the image instead of crashing

---
 internal/ops/stretch/usm.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..e59df95 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -21,13 +21,15 @@ import (
 
 const sqrt2 float32 = float32(math.Sqrt2)
 
-// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range
+// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range,
+// repeatedly if they are further away than the size
 func reflect(size, x int) int {
-	if x < 0 {
-		return -x - 1
-	}
-	if x >= size {
-		return 2*size - x - 1
+	for x < 0 || x >= size {
+		if x < 0 {
+			x = -x - 1
+		} else {
+			x = 2*size - x - 1
+		}
 	}
 	return x
 }
-- 
2.43.0


From 2557a36f4a2e967a9230e458b43f4aaa7da6d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:46 +0000
Subject: [PATCH 58/97] fix: gaussian blur and unsharp masking cope with radii
 below a quarter pixel, zero and negative ones

---
 internal/ops/hsl/hsl.go         | 2 +-
 internal/ops/stretch/stretch.go | 4 ++--
 internal/ops/stretch/usm.go     | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 2fdfb9d..7df28a9 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -536,7 +536,7 @@ func (op *OpHSLUnsharpMask) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
-	if op.Gain == 0.0 {
+	if op.Sigma <= 0 || op.Gain == 0.0 {
 		return f, nil
 	}
 
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index 98ac92c..c50b5eb 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -366,7 +366,7 @@ func (op *OpGaussianBlur) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Sigma==0 { return f, nil }
+	if op.Sigma<=0 { return f, nil }
 
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
@@ -412,7 +412,7 @@ func (op *OpUnsharpMask) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Sigma==0 || op.Gain==0 { return f, nil }
+	if op.Sigma<=0 || op.Gain==0 { return f, nil }
 
 	absThresh:=f.Stats.Location() + f.Stats.Scale()*op.Threshold
 	fmt.Fprintf(c.Log, "%d: Unsharp masking with sigma %.3g gain %.3g thresh %.3g absThresh %.3g\n", 
diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index e59df95..41ac82f 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -49,7 +49,9 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 	for {
 		val := GaussianDefiniteIntegral(mu, sigma, float32(-0.5)-float32(radius))
 		if val < acceptOut {
-			radius--
+			if radius > 0 {
+				radius--
+			}
 			break
 		}
 		radius++
-- 
2.43.0


From 75a77a5057fcb719fa567c19caa3ab6f5a7b48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 59/97] fix: gaussian blur and unsharp masking keep the
 channels of color images apart

---
 internal/ops/stretch/stretch.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index c50b5eb..67229ec 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -335,6 +335,12 @@ func (op *OpScaleBlack) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 }
 
 
+// Returns the number of pixels per color channel of the given image
+func planeSize(f *fits.Image) int {
+	if len(f.Naxisn)<3 { return len(f.Data) }
+	return int(f.Naxisn[0])*int(f.Naxisn[1])
+}
+
 // An operator to apply gaussian blurring to an image
 type OpGaussianBlur struct {
 	ops.OpUnaryBase
@@ -371,7 +377,9 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	for from, size:=0, planeSize(f); from<len(f.Data); from+=size { // each color channel separately
+		GaussianBlur(f.Data[from:from+size], int(f.Naxisn[0]), op.Sigma)
+	}
 	f.Stats.Clear()
 	return f, nil
 }
@@ -420,7 +428,12 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	min, max:=f.Stats.Min(), f.Stats.Max()
+	sharpened:=make([]float32, 0, len(f.Data))
+	for from, size:=0, planeSize(f); from<len(f.Data); from+=size { // each color channel separately
+		sharpened=append(sharpened, UnsharpMask(f.Data[from:from+size], int(f.Naxisn[0]), op.Sigma, op.Gain, min, max, absThresh)...)
+	}
+	f.Data=sharpened
 	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From 5b1673daa9dfdf996597c9e4ce67081ca56e67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 60/97] fix: matching histograms by black point leaves frames
 as is if the reference is all-white, instead of yielding NaN

---
 internal/fits/pixelops.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 952afe5..ca5a11e 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -647,7 +647,7 @@ func (f* Image) ScaleRGB(r, g, b float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMove(before, after float32) {
-    if before>=1 { return } // no black point moves white
+    if before>=1 || after>=1 { return } // no black point moves white, or moves anything else there
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
@@ -662,7 +662,7 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
-    if before>=1 { return } // no black point moves white
+    if before>=1 || after>=1 { return } // no black point moves white, or moves anything else there
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
-- 
2.43.0


From f97a335e8d3e5c9f256f3c7b01f9c589dbc93052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 61/97] fix: matching histograms copes with frames of zero
 scale or zero location instead of yielding NaN

---
 internal/fits/pixelops.go        | 5 ++++-
 internal/ops/post/postprocess.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index ca5a11e..abd3ba3 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -599,7 +599,10 @@ func (f *Image) MatchLocation(refLocation float32) {
 // Adjust image data to match the histogram shape of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchHistogram(refStats *stats.Stats) {
-	multiplier:=refStats.Scale()    / f.Stats.Scale()
+	multiplier:=float32(1)
+	if f.Stats.Scale()!=0 { // else there is no spread to match, just shift
+		multiplier=refStats.Scale() / f.Stats.Scale()
+	}
 	offset    :=refStats.Location() - f.Stats.Location()*multiplier
 	data:=f.Data
 	for i, d:=range data {
diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index 09cbdd2..1ab4bb8 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -83,6 +83,9 @@ func (op *OpMatchHistogram) Apply(f *fits.Image, c *ops.Context) (result *fits.I
 	}
 	switch op.Mode {
 	case HNMLocation:
+		if f.Stats.Location() == 0 {
+			return nil, fmt.Errorf("%d: cannot match histogram location by scaling, as location is zero", f.ID)
+		}
 		f.MatchLocation(c.MatchHisto.Location())
 	case HNMLocScale:
 		f.MatchHistogram(c.MatchHisto)
-- 
2.43.0


From f4cd3d51e186f6e73cb3a50b6e91d49a5eeed6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 62/97] fix: keep the hue of colours with a chroma coordinate
 near zero or both near equal

---
 internal/fits/pixelops.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index abd3ba3..28bf71b 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -271,13 +271,19 @@ func (f* Image) MonoToHSLLum() {
 }
 
 
+// Convert color to CIE HCL. Unlike col.Hcl(), keeps the hue of colors with A near zero or A near B
+func toHcl(col colorful.Color) (h, c, l float64) {
+	l, a, b:=col.Lab()
+	return polarHue(a, b), math.Hypot(a, b), l
+}
+
 // Pixel function to convert RGB to CIE HCL pixels. Operates in-place.
 func pf3ChanRGBToHCL(rs,gs,bs []float32, params interface{}) {
 	for i:=0; i<len(rs); i++ {
 		r, g, b:=rs[i], gs[i], bs[i]
 
 		col:=colorful.LinearRgb(float64(r),float64(g),float64(b))
-		h,c,l:=col.Hcl()
+		h,c,l:=toHcl(col)
 
 		rs[i], gs[i], bs[i]=float32(h), float32(c), float32(l) 
 	}
@@ -297,7 +303,7 @@ func pf3ChanRGBToCIEHSL(rs,gs,bs []float32, params interface{}) {
 		r, g, b:=rs[i], gs[i], bs[i]
 
 		col:=colorful.LinearRgb(float64(r),float64(g),float64(b))
-		h,c,l:=col.Hcl()
+		h,c,l:=toHcl(col)
 		//s:=c/l
 		s:=c/math.Sqrt(c*c+l*l)
 
@@ -375,6 +381,18 @@ func (f* Image) XyyToRGB() {
 }
 
 
+// Convert color to HSLuv. Unlike col.HSLuv(), keeps the hue of colors with U near zero or U near V
+func toHSLuv(col colorful.Color) (h, s, l float64) {
+	l, u, v:=col.LuvWhiteRef(hSLuvD65)
+	return colorful.LuvLChToHSLuv(l, math.Hypot(u, v), polarHue(u, v))
+}
+
+// Returns the hue in degrees [0..360) for the given chroma coordinates, and zero for grays 
+func polarHue(x, y float64) float64 {
+	if math.Hypot(x, y)<1e-6 { return 0 }
+	return math.Mod(math.Atan2(y, x)*180/math.Pi+360, 360)
+}
+
 // Pixel function to convert RGB to HSLuv pixels. Operates in-place.
 // https://www.hsluv.org/
 func pf3ChanRGBToHSLuv(rs,gs,bs []float32, params interface{}) {
@@ -382,7 +400,7 @@ func pf3ChanRGBToHSLuv(rs,gs,bs []float32, params interface{}) {
 		r, g, b:=rs[i], gs[i], bs[i]
 
 		col:=colorful.LinearRgb(float64(r),float64(g),float64(b))
-		h,s,l:=col.HSLuv()
+		h,s,l:=toHSLuv(col)
 
 		rs[i], gs[i], bs[i]=float32(h), float32(s), float32(l) 
 	}
@@ -565,7 +583,7 @@ func pf3ChanSCNR(hs,ss,ls []float32, params interface{}) {
 
 		// reassemble with luminance protection
 		col     =colorful.LinearRgb(float64(r),float64(weightedG),float64(b))
-		hnew,snew,_:=col.HSLuv()
+		hnew,snew,_:=toHSLuv(col)
 		hs[i], ss[i]=float32(hnew), float32(snew)        
 	}
 }
-- 
2.43.0


From 081b33aa83f0e4bde24d49e5597661c7edf5a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:57 +0000
Subject: [PATCH 63/97] fix: color combination refuses channels of different
 sizes and missing channels instead of mixing them up

---
 internal/ops/rgb/rgb.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f530d65..1756478 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -62,6 +62,9 @@ func (op *OpRGBCombine) MakePromises(ins []ops.Promise, c *ops.Context) (outs []
 		if err != nil {
 			return nil, err
 		}
+		if len(fs) != len(ins) { // remaining frames would end up in the wrong channels
+			return nil, fmt.Errorf("%s operator with only %d of %d inputs left", op.Type, len(fs), len(ins))
+		}
 		return op.Apply(fs, c)
 	}
 	return []ops.Promise{out}, nil
@@ -71,6 +74,14 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	for i, f := range fs {
+		if f == nil {
+			return nil, fmt.Errorf("missing channel %d for color combination", i)
+		}
+		if !fits.EqualInt32Slice(f.Naxisn, fs[0].Naxisn) {
+			return nil, fmt.Errorf("cannot combine channels of different sizes %s and %s", fs[0].DimensionsToString(), f.DimensionsToString())
+		}
+	}
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
 	}
-- 
2.43.0


From a29b0be693ee7295afe0320035b7d72a08a4823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 64/97] fix: color combination of uniform channels of equal
 value yields black instead of NaN

---
 internal/fits/rgb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 2a965a9..037f901 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -73,7 +73,8 @@ func getCommonNormalizationFactors(chans []*Image) (min, mult float32) {
 			max=ch.Stats.Max()
 		}
 	}
-	mult=1 / (max - min)
+	mult=1
+	if max>min { mult=1 / (max - min) }
 	return min, mult
 }
 
-- 
2.43.0


From b6a42f4572d2c79b96468f8e783a5e955dd86ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 65/97] fix: color balancing copes with uniform channels and
 clipped stars, and refuses images without a block to balance instead of
 yielding NaN

---
 internal/fits/rgb.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 037f901..19d23a1 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -94,6 +94,13 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 // Then find the darkest block, and set it to the desired color; and find the average star color,
 // and set it to the desired color  
 func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim float32, shadows, highlights RGB, logWriter io.Writer) error {
+	if len(f.Naxisn)<3 || len(f.Data)!=3*int(f.Naxisn[0])*int(f.Naxisn[1]) {
+		return fmt.Errorf("cannot balance colors of %s image", f.DimensionsToString())
+	}
+	if block<1 || border<0 || skipBright<0 || skipDim<0 {
+		return fmt.Errorf("invalid color balance block %d, border %g, skipBright %g or skipDim %g", block, border, skipBright, skipDim)
+	}
+
 	// Estimate location (=histogram peak, background black point) per color channel
 	statsR:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 0, 3)
 	statsG:=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
@@ -112,6 +119,9 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	statsB=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 
 	darkest:= f.findDarkestBlock(block, border)
+	if darkest.R==math.MaxFloat32 {
+		return fmt.Errorf("no %dx%d block for color balance in %s image outside border of %.1f%%", block, block, f.DimensionsToString(), 100*border)
+	}
 	clip   := float32(0.9)
 	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
@@ -136,9 +146,10 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 	// starNewR, starNewG, starNewB := float32(0.902), float32(0.99), float32(0.955)
 
 	// Calculate multiplicative correction factors
-	alphaR:=(newHighlights.R - newShadows.R) / (curHighlights.R - curShadows.R)
-	alphaG:=(newHighlights.G - newShadows.G) / (curHighlights.G - curShadows.G)
-	alphaB:=(newHighlights.B - newShadows.B) / (curHighlights.B - curShadows.B)
+	alphaR, alphaG, alphaB:=float32(1), float32(1), float32(1) // keep contrast of uniform channels
+	if curHighlights.R!=curShadows.R { alphaR=(newHighlights.R - newShadows.R) / (curHighlights.R - curShadows.R) }
+	if curHighlights.G!=curShadows.G { alphaG=(newHighlights.G - newShadows.G) / (curHighlights.G - curShadows.G) }
+	if curHighlights.B!=curShadows.B { alphaB=(newHighlights.B - newShadows.B) / (curHighlights.B - curShadows.B) }
 
 	// Calculate additive correction factors 
 	betaR:=newShadows.R - alphaR * curShadows.R
@@ -277,6 +288,8 @@ func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
 		totalPixels+=starPixels
 	}
 
+	if totalPixels==0 { return RGB{0, 0, 0} } // all clipped
+
 	// normalize and return totals
 	norm:=1.0/float32(totalPixels)
 	return RGB{totalR*norm, totalG*norm, totalB*norm}
-- 
2.43.0


From 5afa27dcd5bde4c03396c63c7dfb4d3df3722ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 66/97] fix: background neutralization fades colors in between
 the low and the high threshold instead of cutting off at the low one

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 28bf71b..a3613cc 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -488,7 +488,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From 168c676e18ab0ba379fb62c9b2b814554558df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 67/97] fix: hue rotation wraps around to hues in [0,360), so
 later steps can select rotated colors by hue

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index a3613cc..d403b03 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -555,7 +555,7 @@ func pf3ChanRotateColors(hs,ss,ls []float32, params interface{}) {
 		if ( from<=to  && (h>from && h<to)) ||
 		   ((from> to) && (h>from || h<to)) {  // if hue in given range (e.g. greens 100..190)
 			h+=offset                          // rotate by given amount (e.g yellow with -30)
-			hs[i]=h
+			hs[i]=float32(math.Mod(math.Mod(float64(h), 360)+360, 360)) // keep hue in [0,360)
 		}
 	}
 }
-- 
2.43.0


From 30b24663d6c5bb9e25aadb67db15456a954e98fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 68/97] fix: scaling a color channel reports invalid channel
 IDs instead of crashing

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 7df28a9..3f8f2f7 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -113,6 +113,9 @@ func (op *OpHSLScaleOffsetChannel) Apply(f *fits.Image, c *ops.Context) (fOut *f
 	if op.Scale == 1 && op.Offset == 0 {
 		return f, nil
 	}
+	if op.ChannelID < 0 || op.ChannelID > 2 {
+		return nil, fmt.Errorf("%d: invalid channel ID %d", f.ID, op.ChannelID)
+	}
 	fmt.Fprintf(c.Log, "%d: Applying pixel math x = x * %.3f + %.3f%% to channel %d\n", f.ID, op.Scale, op.Offset*100, op.ChannelID)
 	f.ApplyScaleOffsetToChannel(op.ChannelID, op.Scale, op.Offset)
 	return f, nil
-- 
2.43.0


From e978f05346c93719a5d32cab1bf6be93b85aeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:39 +0000
Subject: [PATCH 69/97] fix: luminance is normalized like the color channels it
 is applied to, so LRGB output is not all white, and refused if of another
 size

---
 internal/ops/hsl/hsl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 3f8f2f7..08d100f 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -60,6 +60,12 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if c.LumFrame == nil {
 		return f, nil
 	}
+	if 3*len(c.LumFrame.Data) != len(f.Data) || c.LumFrame.Naxisn[0] != f.Naxisn[0] {
+		return nil, fmt.Errorf("cannot apply luminance of size %s to image of size %s", c.LumFrame.DimensionsToString(), f.DimensionsToString())
+	}
+	if c.LumFrame.Stats.Max() > c.LumFrame.Stats.Min() { // to [0,1] like the color channels
+		c.LumFrame.Normalize()
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
 	c.LumFrame.MonoToHSLuvLum()
 
-- 
2.43.0


From f1ecd5df833dd162f4e5292757f0d713fc7a8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:03 +0000
Subject: [PATCH 70/97] fix: job descriptions keep the color filter array for
 bad pixel removal, so a saved and reloaded job gives the same output

---
 internal/ops/pre/preprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 617abea..a1e22ea 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -147,7 +147,7 @@ type OpBadPixel struct {
 	ops.OpUnaryBase
 	SigmaLow  float32    `json:"sigmaLow"`
 	SigmaHigh float32    `json:"sigmaHigh"`
-	Debayer   *OpDebayer `json:"-"`
+	Debayer   *OpDebayer `json:"debayer"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpBadPixelDefaults() }) } // register the operator for JSON decoding
-- 
2.43.0


From a9ae873591754fe45d4681f15dd5a845e9a9bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 71/97] fix: parsing a sequence refuses other operator types,
 defaults a missing type and replaces prior steps instead of appending to them

---
 internal/ops/operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 11227d0..7ec481b 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -491,7 +491,13 @@ func (op *OpSequence) UnmarshalJSON(b []byte) error {
 	if err != nil {
 		return err
 	}
+	if tmp.Type == "" {
+		tmp.Type = NewOpSequenceDefault().Type
+	} else if tmp.Type != NewOpSequenceDefault().Type {
+		return fmt.Errorf("expected a sequence of operators, but found operator type '%s'", tmp.Type)
+	}
 	op.Type = tmp.Type
+	op.Steps = nil
 
 	for _, raw := range tmp.StepsRaw {
 		var step OpBase
-- 
2.43.0


From 51b202ee19e1476cead2a511c5190681a00b0185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 72/97] fix: frames dropped by the star count filter no longer
 crash the steps which follow it

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 7ec481b..d54ae38 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -200,6 +200,9 @@ func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
 		if f, err = in(); err != nil {
 			return nil, err
 		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // pass on frames dropped by earlier operators
 		if f, err = op.Apply(f, c); err != nil {
 			return nil, err
 		} // apply unary operator
-- 
2.43.0


From 0e910bfe8b4dbc3eb6cd30522d36856ded7a1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 73/97] fix: executing a job with a thread limit below one uses
 one thread instead of hanging or crashing

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index d54ae38..47e51b2 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -78,6 +78,9 @@ func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Im
 	if !forget {
 		outs = make([]*fits.Image, len(ins))
 	}
+	if maxThreads < 1 {
+		maxThreads = 1 // always make progress
+	}
 	limiter := make(chan bool, maxThreads)
 	errs := make(chan error, len(ins))
 	for i, in := range ins {
-- 
2.43.0


From 74d48bba650ef7e905eabd3783bc4e0086010f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:38 +0000
Subject: [PATCH 74/97] fix: exported statistics are complete on disk for any
 number of frames, also without batches or with dropped frames, and several
 exports do not mix

---
 internal/ops/operator.go           |  7 ----
 internal/ops/ref/exportstats.go    | 57 ++++++++++++++++--------------
 internal/ops/stack/stackbatches.go |  2 --
 3 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 47e51b2..e5f9e66 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -16,13 +16,11 @@
 package ops
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"os"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -49,11 +47,6 @@ type Context struct {
 	MatchHisto      *stats.Stats
 	RefFrameError   error
 	LumFrame        *fits.Image
-
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 6516ef0..c034969 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -16,7 +16,6 @@
 package ref
 
 import (
-	"bufio"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -28,10 +27,11 @@ import (
 
 type OpExportStats struct {
 	ops.OpUnaryBase
-	FileName     string        `json:"fileName"`
-	mutex        sync.Mutex    `json:"-"`
-	materialized []*fits.Image `json:"-"`
-	opError      error         `json:"-"`
+	FileName string       `json:"fileName"`
+	mutex    sync.Mutex   `json:"-"`
+	context  *ops.Context `json:"-"` // the context for which the output file was created
+	file     *os.File     `json:"-"` // the output file being written to
+	offset   int64        `json:"-"` // end of the last row in the output file
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -70,16 +70,15 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	defer op.mutex.Unlock() // always release lock on exit
 
 	// write stats
-	if c.StatsProcessed == 0 {
+	if op.context != c {
 		err = op.writeHeader(c)
 		if err != nil {
 			return nil, err
 		}
 	}
-	op.writeStats(f, c)
-	c.StatsProcessed++
-	if c.StatsProcessed == c.StatsTotal {
-		op.writeFooter(c)
+	err = op.writeStats(f, c)
+	if err != nil {
+		return nil, err
 	}
 
 	return f, nil
@@ -87,33 +86,39 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 
 func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
-	c.StatsFile, err = os.Create(op.FileName)
+	if op.file != nil {
+		op.file.Close()
+	}
+	op.context, op.offset = nil, 0
+	op.file, err = os.Create(op.FileName)
 	if err != nil {
+		op.file = nil
 		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
 	}
-	c.StatsBufWriter = bufio.NewWriter(c.StatsFile)
-
-	c.StatsBufWriter.WriteString(sessionStatsHeader)
-	fmt.Fprintf(c.StatsBufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
 
+	header := sessionStatsHeader + "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n"
+	if err = op.append(header); err != nil {
+		return err
+	}
+	op.context = c
 	return nil
 }
 
-func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
+func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(c.StatsBufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
-		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
+	return op.append(fmt.Sprintf("  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR))
 }
 
-func (op *OpExportStats) writeFooter(c *ops.Context) {
-	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
-	fmt.Fprintf(c.StatsBufWriter, "]")
-	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	c.StatsBufWriter.Flush()
-	c.StatsBufWriter = nil
-	c.StatsFile.Close()
-	c.StatsFile = nil
+// Appends text to the output file, followed by a footer which the next text replaces. This keeps the file
+// complete at all times, as the total number of frames is not known in advance
+func (op *OpExportStats) append(text string) (err error) {
+	if _, err = op.file.WriteAt([]byte(text+"]"+sessionStatsTrailer), op.offset); err != nil {
+		return fmt.Errorf("error writing file %s: %s", op.FileName, err.Error())
+	}
+	op.offset += int64(len(text))
+	return nil
 }
 
 const sessionStatsHeader = `<html>
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 2f2aba1..0d0567d 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -60,8 +60,6 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		return nil, err
 	}
 	c.MaxThreads = int(maxThreads)
-	c.StatsTotal = len(insPerm)
-	c.StatsProcessed = 0
 
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
-- 
2.43.0


From 124b6f6dd8ca1f49d7567115da0c1a386a042ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 75/97] fix: batch stacking copes with a dropped first frame
 and no longer loads and processes the first frame twice

---
 internal/ops/stack/stackbatches.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 0d0567d..c7c6a19 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -22,6 +22,7 @@ import (
 	"runtime"
 	"runtime/debug"
 	"sort"
+	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
@@ -116,6 +117,22 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 	return stack, nil
 }
 
+// Returns a promise for an image which has already been materialized. It gives up the image
+// after the first use to free memory, and falls back on the original promise from then on
+func once(f *fits.Image, in ops.Promise) ops.Promise {
+	mutex := sync.Mutex{}
+	return func() (*fits.Image, error) {
+		mutex.Lock()
+		res := f
+		f = nil
+		mutex.Unlock()
+		if res != nil {
+			return res, nil
+		}
+		return in()
+	}
+}
+
 func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm []ops.Promise,
 	numBatches, batchSize, maxThreads int64, err error) {
 	numFrames := int64(len(ins))
@@ -125,10 +142,20 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 	} else if c.FlatFrame != nil {
 		width, height = int64(c.FlatFrame.Naxisn[0]), int64(c.FlatFrame.Naxisn[1])
 	} else if len(ins) > 0 {
+		// load the first frame not dropped by earlier operators
 		first, err := ins[0]()
+		for err == nil && first == nil && len(ins) > 1 {
+			ins = ins[1:]
+			first, err = ins[0]()
+		}
 		if err != nil {
 			return nil, 0, 0, 0, err
 		}
+		if first == nil {
+			return nil, 0, 0, 0, errors.New("No frames left to batch process")
+		}
+		numFrames = int64(len(ins))
+		ins = append([]ops.Promise{once(first, ins[0])}, ins[1:]...) // don't load it again
 		fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
 		width, height = int64(first.Naxisn[0]), int64(first.Naxisn[1])
 	} else {
-- 
2.43.0


From d51d3fa6025d00875f9671d8aa5e2b8c1522e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 76/97] fix: selecting a reference frame copes with dropped
 frames and with several batches, instead of passing on wrong frames or
 crashing

---
 internal/ops/ref/refframe.go | 76 ++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 71e021c..7eb22ff 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -40,11 +40,16 @@ var srTargetStrings = []string{"alignment", "histogram"}
 
 type OpSelectReference struct {
 	ops.OpBase
-	Target       SelRefTarget      `json:"target"`
-	Mode         string            `json:"mode"`
-	StarDetect   *pre.OpStarDetect `json:"starDetect"`
-	mutex        sync.Mutex        `json:"-"`
-	materialized []*fits.Image     `json:"-"`
+	Target     SelRefTarget      `json:"target"`
+	Mode       string            `json:"mode"`
+	StarDetect *pre.OpStarDetect `json:"starDetect"`
+	mutex      sync.Mutex        `json:"-"`
+}
+
+// Images materialized while selecting a reference among a set of input promises
+type selection struct {
+	images []*fits.Image // in order of the inputs. nil for dropped images
+	taken  []bool        // true if the image was passed on already
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpSelectReferenceDefault() }) } // register the operator for JSON decoding
@@ -85,13 +90,41 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	}
 
 	outs = make([]ops.Promise, len(ins))
+	sel := &selection{}
 	for i, _ := range ins {
-		outs[i] = op.applySingle(i, ins, c)
+		outs[i] = op.applySingle(i, ins, sel, c)
 	}
 	return outs, nil
 }
 
-func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Context) ops.Promise {
+// Materializes all input promises of the selection with given concurrency limit
+func (sel *selection) materializeAll(ins []ops.Promise, maxThreads int) error {
+	images := make([]*fits.Image, len(ins))
+	stores := make([]ops.Promise, len(ins))
+	for i, in := range ins {
+		i, in := i, in
+		stores[i] = func() (f *fits.Image, err error) {
+			images[i], err = in()
+			return nil, err
+		}
+	}
+	if _, err := ops.MaterializeAll(stores, maxThreads, true); err != nil {
+		return err
+	}
+	sel.images, sel.taken = images, make([]bool, len(ins))
+	return nil
+}
+
+// Passes on the i-th image if it was materialized, giving up the reference to free memory
+func (sel *selection) take(i int) (f *fits.Image, ok bool) {
+	if sel.images == nil || sel.taken[i] {
+		return nil, false
+	}
+	f, sel.images[i], sel.taken[i] = sel.images[i], nil, true
+	return f, true
+}
+
+func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selection, c *ops.Context) ops.Promise {
 	return func() (f *fits.Image, err error) {
 		op.mutex.Lock()             // lock so a single thread accesses the reference frame
 		if c.RefFrameError != nil { // if reference frame detection failed in a prior thread
@@ -100,14 +133,12 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 		if (op.Target == SRAlign && c.AlignStars != nil) ||
 			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
+			mat, ok := sel.take(i)
 			op.mutex.Unlock() // unlock immediately to allow ...
-			if op.materialized == nil || op.materialized[i] == nil {
+			if !ok {
 				return ins[i]() // ... materializations to be parallelized by the caller
-			} else {
-				mat := op.materialized[i]
-				op.materialized[i] = nil // remove reference to free memory
-				return mat, nil
 			}
+			return mat, nil
 		}
 		defer op.mutex.Unlock() // else release lock later when reference frame is computed
 
@@ -151,14 +182,14 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 
 		// otherwise, materialize the input promises
-		op.materialized, c.RefFrameError = ops.MaterializeAll(ins, c.MaxThreads, false)
+		c.RefFrameError = sel.materializeAll(ins, c.MaxThreads)
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
 
 		// Auto-select mode for (L)RGB
 		if mode == "%rgb" {
-			if len(op.materialized) > 3 {
+			if len(sel.images) > 3 && sel.images[3] != nil {
 				mode, fileID, atoiErr = "3", 3, nil
 			} else {
 				mode = "%starsHFR"
@@ -169,15 +200,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		var refScore float32
 		var refFrame *fits.Image
 		if mode == "%starsHFR" {
-			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(op.materialized)
+			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(sel.images)
 		} else if mode == "%location" {
-			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(op.materialized, c)
+			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(sel.images, c)
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(op.materialized) {
+			if fileID < 0 || fileID >= len(sel.images) {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = op.materialized[fileID]
+			refFrame = sel.images[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
@@ -191,8 +222,7 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		op.assignResults(c, refFrame)
 
 		// return promise for the materialized image of this instance
-		mat := op.materialized[i]
-		op.materialized[i] = nil // remove reference
+		mat, _ := sel.take(i)
 		return mat, nil
 	}
 }
@@ -231,6 +261,9 @@ func selectReferenceMedianLoc(lights []*fits.Image, c *ops.Context) (refFrame *f
 	fun := func(f *fits.Image) float32 { return f.Stats.Location() }
 	locs := inParallel(lights, fun, c.MaxThreads)
 	locs = removeNaNs(locs)
+	if len(locs) == 0 {
+		return nil, 0, errors.New("Unable to select reference frame with median location")
+	}
 
 	// calculate median
 	medianLoc := qsort.QSelectMedianFloat32(locs)
@@ -264,6 +297,9 @@ func inParallel(fs []*fits.Image, fun func(*fits.Image) float32, maxThreads int)
 		return nil
 	}
 	outs := make([]float32, len(fs))
+	if maxThreads < 1 {
+		maxThreads = 1
+	}
 	limiter := make(chan bool, maxThreads)
 	for i, f := range fs {
 		limiter <- true
-- 
2.43.0


From 336dd8ddb4026d3f48e1501595e4fc4adf4d0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 77/97] fix: a reference frame given by image ID selects the
 image with this ID, not the one at this position of a random batch

---
 internal/ops/ref/refframe.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 7eb22ff..26d9a53 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -188,9 +188,10 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selectio
 		}
 
 		// Auto-select mode for (L)RGB
+		var lumFrame *fits.Image
 		if mode == "%rgb" {
 			if len(sel.images) > 3 && sel.images[3] != nil {
-				mode, fileID, atoiErr = "3", 3, nil
+				lumFrame = sel.images[3]
 			} else {
 				mode = "%starsHFR"
 			}
@@ -203,12 +204,19 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selectio
 			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(sel.images)
 		} else if mode == "%location" {
 			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(sel.images, c)
+		} else if mode == "%rgb" {
+			refFrame = lumFrame
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(sel.images) {
+			for _, f := range sel.images { // image IDs differ from positions in random batches
+				if f != nil && f.ID == fileID {
+					refFrame = f
+					break
+				}
+			}
+			if refFrame == nil {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = sel.images[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
-- 
2.43.0


From 32e510d400cc9309ba77ba2228af0cc83a3b4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 78/97] fix: the histogram reference is not affected by later
 steps changing the reference frame in place, and a reference frame without
 stars is selected just once

---
 internal/ops/ref/refframe.go |  8 ++++++--
 internal/stats/stats.go      | 11 +++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 26d9a53..a1934e9 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -23,6 +23,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/ops/pre"
 	"github.com/mlnoga/nightlight/internal/qsort"
+	"github.com/mlnoga/nightlight/internal/star"
 	"math"
 	"strconv"
 	"sync"
@@ -237,11 +238,14 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selectio
 
 func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) {
 	if op.Target == SRAlign {
-		c.AlignNaxisn = refFrame.Naxisn
+		c.AlignNaxisn = append([]int32{}, refFrame.Naxisn...) // later operators may resize the frame in place
 		c.AlignStars = refFrame.Stars
+		if c.AlignStars == nil {
+			c.AlignStars = []star.Star{} // mark reference frame without stars as selected
+		}
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-		c.MatchHisto = refFrame.Stats
+		c.MatchHisto = refFrame.Stats.Snapshot() // later operators may modify the frame in place
 	} else {
 		fmt.Fprintf(c.Log, "Invalid reference selection target %d, skipping.\n", op.Target)
 	}
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 013540d..99b12c6 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -84,6 +84,17 @@ func (s *Stats) SetData(d []float32) {
 	s.Clear()
 }
 
+// Returns a copy of the current statistics, which does not change along with the underlying data.
+// Doesn't include noise, which is expensive to calculate, unless it is available already
+func (s *Stats) Snapshot() *Stats {
+	s.Min()
+	s.StdDev()
+	s.Location()
+	snapshot := *s
+	snapshot.FreeData()
+	return &snapshot
+}
+
 func (s *Stats) Clear() {
 	s.haveMMM, s.haveStdDev, s.haveLocScale, s.haveNoise = false, false, false, false
 }
-- 
2.43.0


From cb80d79ff8ffffa09773fd4ba96175bf00a3dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 79/97] fix: selecting a reference frame from a file without
 star detection settings uses the defaults instead of crashing

---
 internal/ops/ref/refframe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index a1934e9..d52ab2a 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -163,7 +163,11 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selectio
 				return nil, c.RefFrameError
 			}
 
-			promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
+			starDetect := op.StarDetect
+			if starDetect == nil { // e.g. null in JSON
+				starDetect = pre.NewOpStarDetectDefault()
+			}
+			promises, c.RefFrameError = starDetect.MakePromises([]ops.Promise{promises[0]}, c)
 			if c.RefFrameError != nil {
 				return nil, c.RefFrameError
 			}
-- 
2.43.0


From 879b394ab90fcd30032de4775ab61f2a4288fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 80/97] fix: batches are weighted by the number of frames
 stacked in them, not counting frames left out

---
 internal/ops/operator.go           | 1 +
 internal/ops/stack/stack.go        | 1 +
 internal/ops/stack/stackbatches.go | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index e5f9e66..809aecd 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -47,6 +47,7 @@ type Context struct {
 	MatchHisto      *stats.Stats
 	RefFrameError   error
 	LumFrame        *fits.Image
+	StackedFrames   int // number of frames in the latest stack
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 2cf38ec..c56f0b3 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -231,6 +231,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 			numClippedHigh, float32(numClippedHigh)*100.0/(float32(len(data)*len(f))) )
 	}
 
+	c.StackedFrames=len(f)
 	exposureSum:=float32(0)
 	for _,l :=range f { exposureSum+=l.Exposure }
 
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index c7c6a19..a7fb61f 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -87,10 +87,14 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		if len(batchPromises) != 1 {
 			return nil, errors.New("stacking returned more than one promise")
 		}
+		c.StackedFrames = 0
 		batch, err := batchPromises[0]() // materialize the result
 		if err != nil {
 			return nil, err
 		}
+		if c.StackedFrames > 0 {
+			batchFrames = int64(c.StackedFrames) // fewer if some frames were left out
+		}
 
 		// Update stack of stacks
 		if numBatches > 1 {
-- 
2.43.0


From 19e20488c056f718e76816ae8211faf76af3ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 81/97] fix: files with two dots within their name are no
 longer refused or silently skipped when loading

---
 internal/ops/operator.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 809aecd..08857c7 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -255,14 +255,16 @@ func (op *OpLoad) MakePromises(ins []Promise, c *Context) (outs []Promise, err e
 }
 
 // Returns true if a path is considered safe, i.e. not an absolute path,
-// and doesn't contain the ".." characters to change to a parent directory
+// and doesn't contain a ".." path element to change to a parent directory
 func isPathAllowed(p string) bool {
 	if filepath.IsAbs(p) {
 		return false
 	} // relative paths only
-	if strings.Contains(p, "..") {
-		return false
-	} // no going outside the tree
+	for _, element := range strings.Split(filepath.ToSlash(p), "/") {
+		if element == ".." {
+			return false
+		} // no going outside the tree
+	}
 	return true
 }
 
-- 
2.43.0


From 2d86ff5d036575f7584f16f3601fd64ba018d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 82/97] fix: negative sigma bounds, the default of the command
 line, reject outliers with the default bounds instead of rejecting nothing

---
 internal/ops/stack/stack.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index c56f0b3..5c5d87f 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -63,6 +63,8 @@ const (
 )
 
 
+const stDefaultSigma float32 = 2.75 // default for the sigma bounds
+
 type OpStack struct {
 	ops.OpBase
 	Mode         StackMode       `json:"mode"`
@@ -74,7 +76,7 @@ type OpStack struct {
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpStackDefault() })} // register the operator for JSON decoding
 
-func NewOpStackDefault() *OpStack { return NewOpStack(StAuto, StWeightNone, 2.75, 2.75) }
+func NewOpStackDefault() *OpStack { return NewOpStack(StAuto, StWeightNone, stDefaultSigma, stDefaultSigma) }
 
 func NewOpStack(mode StackMode, weighting StackWeighting, sigmaLow, sigmaHigh float32) *OpStack {
 	op:=&OpStack{
@@ -131,8 +133,12 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	if mode==StAuto { 
 		mode=autoSelectStackingMode(len(f))
 	}
+	// negative sigma bounds, as set by the command line unless overridden, select the default
+	sigmaLow, sigmaHigh:=op.SigmaLow, op.SigmaHigh
+	if sigmaLow <0 { sigmaLow =stDefaultSigma }
+	if sigmaHigh<0 { sigmaHigh=stDefaultSigma }
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
-				len(f), mode, op.SigmaLow, op.SigmaHigh)
+				len(f), mode, sigmaLow, sigmaHigh)
 
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
@@ -184,23 +190,23 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 
 			case StSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigma(ldBatch, refFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, refFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				}
 
 			case StWinsorSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackWinsorSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigma(ldBatch, refFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, refFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 				}
 
 			case StMADSigma:
-				clipLow, clipHigh=StackMADSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+				clipLow, clipHigh=StackMADSigma(ldBatch, refFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 
 			case StLinearFit:
-				clipLow, clipHigh=StackLinearFit(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+				clipLow, clipHigh=StackLinearFit(ldBatch, refFrameLoc, sigmaLow, sigmaHigh, data[lower:upper])
 			} 
 
 			// update clipping totals
-- 
2.43.0


From ff316e1ad9c473659077367ad0f01b21dbc65edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 83/97] fix: alignment takes a match of just three stars, which
 always fits exactly, only if there are no more stars

---
 internal/star/align.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 2d32897..cfe4710 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -211,6 +211,9 @@ func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []S
 		if numMatches<len(stars)/3 { // abort if fewer than a third of the stars matched
 			continue;
 		}
+		if numMatches<=3 && len(stars)>3 && len(refStars)>3 { // any three stars always fit exactly, need a fourth to tell
+			continue;
+		}
 
         // Minimize the distance between projected stars and their reference counterparts 
         x0:=[]float64{float64(trans.A), float64(trans.B), float64(trans.C), float64(trans.D), float64(trans.E), float64(trans.F)}
-- 
2.43.0


From 51856848b12d56809065e6eb146063a3d70c69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 84/97] fix: alignment refuses transforms which distort the
 frame or change its scale, which make few unrelated stars match

---
 internal/star/align.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/star/align.go b/internal/star/align.go
index cfe4710..430b7ea 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -78,10 +78,21 @@ func (a *Aligner) Align(naxisn []int32, stars []Star, id int) (trans Transform2D
 	triangles:=generateTriangles(stars, indices, float32(a.Naxisn[0])/float32(naxisn[0]))
 	//LogPrintf("%d: Built %d triangles from the %d brightest stars of the %d overall.\n", id, len(triangles), a.K, len(stars))
 	matches:=a.closestTriangleMatches(triangles)
-	trans, residual=a.findBestMatch(matches, triangles, stars, id)
+	trans, residual=a.findBestMatch(matches, triangles, stars, float32(a.Naxisn[0])/float32(naxisn[0]), id)
 	return trans, residual
 }
 
+// Maximal distortion and deviation from the expected scale for an alignment, relative to the scale
+const maxDistortion=0.1
+
+// Checks if the given transformation preserves shapes and has the given scale, so it can be an alignment
+func isUndistorted(t Transform2D, scale float32) bool {
+	scaleX:=math.Hypot(float64(t.A), float64(t.D))/float64(scale)
+	scaleY:=math.Hypot(float64(t.B), float64(t.E))/float64(scale)
+	skew  :=(float64(t.A)*float64(t.B)+float64(t.D)*float64(t.E))/(float64(scale)*float64(scale))
+	return math.Abs(scaleX-1)<=maxDistortion && math.Abs(scaleY-1)<=maxDistortion && math.Abs(skew)<=maxDistortion
+}
+
 // Selects the k brightest stars, skipping those closer than limit to an already selected star. Returns indices into stars
 func pickBrightestDistant(stars []Star, minLength float32, k int32) (indices []int) {
 	indices=make([]int, k)
@@ -157,7 +168,7 @@ func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match)
 }
 
 
-func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []Star, id int) (trans Transform2D, residual float32) {
+func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []Star, scale float32, id int) (trans Transform2D, residual float32) {
 	bestTrans:=Transform2D{}
 	bestResidualError:=float32(math.MaxFloat32)
 	refTriangles, refStars:=a.RefTriangles, a.RefStars
@@ -245,6 +256,7 @@ func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []S
 
 		x:=result.X
 		trans=Transform2D{float32(x[0]), float32(x[1]), float32(x[2]), float32(x[3]), float32(x[4]), float32(x[5])}
+		if !isUndistorted(trans, scale) { continue } // any few stars can be made to match by distorting the frame
 		residualError:=float32(result.F)
 		// Update best solution found, if applicable
 		if residualError<bestResidualError {
-- 
2.43.0


From f1295719f8a0f376881604c6ecb290f266dec4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 85/97] fix: alignment is refined on close pairs of stars only,
 instead of letting stars paired with a wrong neighbor pull the frame off

---
 internal/star/align.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 430b7ea..880b94f 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -269,10 +269,50 @@ func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []S
 		}
 	}
 
+	// Stars without counterpart which happen to be close to another one distort the solution. Refine it based on close pairs only
+	for _, limit:=range([]float32{4, 2, 2}) {
+		trans, residualError, numMatches:=a.refine(bestTrans, stars, limit*limit)
+		if numMatches<=3 || numMatches<len(stars)/3 || !isUndistorted(trans, scale) { break }
+		bestTrans, bestResidualError=trans, residualError
+	}
 	return bestTrans, bestResidualError
 }
 
 
+// Calculates the transformation with the least square distances between the projected stars and their closest reference stars, 
+// based on those pairs which the given transformation brings closer than the given limit. Also returns the residual error and the number of pairs
+func (a *Aligner) refine(tr Transform2D, stars []Star, distSquaredLimit float32) (trans Transform2D, residual float32, numMatches int) {
+	points, refPoints:=[]Point2D{}, []Point2D{}
+	var x, y, u, v float64 // mean coordinates of stars and of reference stars
+	for _, star:=range stars {
+		p:=Point2D{star.X, star.Y}
+		refPoint, distSquared:=a.Stars2DT.NearestNeighbor(tr.Apply(p))
+		if !(distSquared<distSquaredLimit) { continue }
+		points, refPoints=append(points, p), append(refPoints, refPoint)
+		x, y, u, v=x+float64(p.X), y+float64(p.Y), u+float64(refPoint.X), v+float64(refPoint.Y)
+	}
+	n:=float64(len(points))
+	x, y, u, v=x/n, y/n, u/n, v/n
+
+	var xx, xy, yy, xu, yu, xv, yv float64 // covariances
+	for i, p:=range points {
+		dx, dy, du, dv:=float64(p.X)-x, float64(p.Y)-y, float64(refPoints[i].X)-u, float64(refPoints[i].Y)-v
+		xx, xy, yy=xx+dx*dx, xy+dx*dy, yy+dy*dy
+		xu, yu, xv, yv=xu+dx*du, yu+dy*du, xv+dx*dv, yv+dy*dv
+	}
+	det:=xx*yy-xy*xy
+	A, B:=(xu*yy-yu*xy)/det, (yu*xx-xu*xy)/det
+	D, E:=(xv*yy-yv*xy)/det, (yv*xx-xv*xy)/det
+	trans=Transform2D{float32(A), float32(B), float32(u-A*x-B*y), float32(D), float32(E), float32(v-D*x-E*y)}
+
+	distSquaredSum:=float64(0)
+	for i, p:=range points {
+		distSquaredSum+=float64(Dist2DSquared(trans.Apply(p), refPoints[i]))
+	}
+	return trans, float32(math.Sqrt(distSquaredSum)/n), len(points)
+}
+
+
 func (a *Aligner) calcDist(stars []Star, tr Transform2D) (starsMatched int32, dist float32) {
 	distSquaredLimit:=float32(8.0*8.0)  // Distance limit to consider this a match. FIXME: arbitrary!!
 	starsMatched=int32(0)
-- 
2.43.0


From 628cbd1e900b41f00579632846a289d1b4c1d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 86/97] fix: restore the line endings of background.go, which
 an earlier repair had changed

---
 internal/ops/pre/background.go | 1108 ++++++++++++++++----------------
 1 file changed, 554 insertions(+), 554 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 08a5f56..1167d27 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -1,554 +1,554 @@
-// Copyright (C) 2020 Markus L. Noga
-//
-// This program is free software: you can redistribute it and/or modify
-// it under the terms of the GNU General Public License as published by
-// the Free Software Foundation, either version 3 of the License, or
-// (at your option) any later version.
-//
-// This program is distributed in the hope that it will be useful,
-// but WITHOUT ANY WARRANTY; without even the implied warranty of
-// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-// GNU General Public License for more details.
-//
-// You should have received a copy of the GNU General Public License
-// along with this program.  If not, see <https://www.gnu.org/licenses/>.
-
-package pre
-
-import (
-	"fmt"
-	"io"
-	"math"
-	"strings"
-
-	"github.com/mlnoga/nightlight/internal/median"
-	"github.com/mlnoga/nightlight/internal/qsort"
-	"github.com/mlnoga/nightlight/internal/star"
-)
-
-// A piecewise linear background, for automated background extraction (ABE)
-type Background struct {
-	Width        int32         // original image width
-	Height       int32         // original image height
-	GridSpacing  int32         // approximate grid spacing as given by user
-	GridSpacingX float32       // fine grid spacing for evenly sized cells, X direction
-	GridSpacingY float32       // fine grid spacing for evenly sized cells, Y direction
-	GridCellsX   int32         // number of grid cells, X direction
-	GridCellsY   int32         // number of grid cells, Y direction
-	GridCells    int32         // number of grid cells, total = X * Y
-	Cells        []float32     // grid cell values
-	OutlierCells int32         // number of outlier cells replaced with interpolation of neighboring cells
-	Max          float32       // maximum alpha, beta, gamma values
-	Min          float32       // minimum alpha, beta, gamma values
-	CellStars    [][]star.Star // stars relevant for a given cell
-	HFRFactor    float32       // multiplier for HFRs
-}
-
-func (b *Background) String() string {
-	return fmt.Sprintf("Background grid %d cells %dx%d outliers %d range [%f...%f]",
-		b.GridSpacing, b.GridCellsX, b.GridCellsY, b.OutlierCells,
-		b.Min, b.Max)
-}
-
-func (b *Background) CellsString() string {
-	sb := &strings.Builder{}
-
-	for y := int32(0); y < b.GridCellsY; y++ {
-		fmt.Fprintf(sb, "%2d:", y)
-		for x := int32(0); x < b.GridCellsX; x++ {
-			c := y*b.GridCellsX + x
-			fmt.Fprintf(sb, " %4.0f", b.Cells[c])
-		}
-		sb.WriteString("\n")
-	}
-	return sb.String()
-}
-
-// Creates new background by fitting linear gradients to grid cells of the given image, masking out areas in given mask
-func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32, backClip int32, stars []star.Star, hfrFactor float32, logWriter io.Writer) (b *Background) {
-	// Allocate space for gradient cells
-	height := int32(len(src) / int(width))
-
-	gridCellsX := (width + gridSpacing/2) / gridSpacing
-	gridCellsY := (height + gridSpacing/2) / gridSpacing
-	if gridCellsX < 1 {
-		gridCellsX = 1
-	}
-	if gridCellsY < 1 {
-		gridCellsY = 1
-	}
-	gridCells := gridCellsX * gridCellsY
-	gridSpacingX := float32(width) / float32(gridCellsX)
-	gridSpacingY := float32(height) / float32(gridCellsY)
-	cells := make([]float32, gridCells)
-	cellStars := make([][]star.Star, gridCells)
-
-	//LogPrintf("GridCells x %d y %d total %d GridSpacing x %.2f y %.2f\n", gridCellsX, gridCellsY, gridCells, gridSpacingX, gridSpacingY)
-	b = &Background{Width: width, Height: height, GridSpacing: gridSpacing,
-		GridSpacingX: gridSpacingX, GridSpacingY: gridSpacingY,
-		GridCellsX: gridCellsX, GridCellsY: gridCellsY, GridCells: gridCells, Cells: cells,
-		CellStars: cellStars, HFRFactor: hfrFactor}
-
-	b.binStarsIntoCells(stars)
-
-	b.init(src, sigma)
-	//LogPrintf("Sigma %f\n", sigma)
-	//LogPrintln(b.CellsString())
-
-	if backClip > 0 {
-		b.clip(backClip, logWriter)
-		//LogPrintf("Clip %d\n", backClip)
-		//LogPrintln(b.CellsString())
-	}
-
-	b.fillMissing()
-
-	b.smoothe()
-	//LogPrintln("Smooth")
-	//LogPrintln(b.CellsString())
-
-	b.calculateStats()
-
-	return b
-}
-
-// For each grid cell, put the stars relevant for it into the respective bin
-func (b *Background) binStarsIntoCells(stars []star.Star) {
-	cs := b.CellStars
-	for _, s := range stars {
-		// Trace all cells touched by the square around the star, with one pixel margin for rounding of cell edges
-		radius := s.HFR*b.HFRFactor + 1
-		cellXStart := limit(int32((s.X-radius)/b.GridSpacingX), b.GridCellsX)
-		cellXEnd := limit(int32((s.X+radius)/b.GridSpacingX), b.GridCellsX)
-		cellYStart := limit(int32((s.Y-radius)/b.GridSpacingY), b.GridCellsY)
-		cellYEnd := limit(int32((s.Y+radius)/b.GridSpacingY), b.GridCellsY)
-		for cellY := cellYStart; cellY <= cellYEnd; cellY++ {
-			for cellX := cellXStart; cellX <= cellXEnd; cellX++ {
-				cellOffset := cellY*b.GridCellsX + cellX
-				cs[cellOffset] = append(cs[cellOffset], s)
-			}
-		}
-	}
-}
-
-// Limits x to the range [0, n-1]
-func limit(x, n int32) int32 {
-	if x < 0 {
-		return 0
-	}
-	if x >= n {
-		return n - 1
-	}
-	return x
-}
-
-// Initialize background by approximating each grid cell with a linear gradient
-func (b *Background) init(src []float32, sigma float32) {
-	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
-	medBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
-	madBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
-
-	// For all grid cells
-	for y := int32(0); y < b.GridCellsY; y++ {
-		yStart := int32(float32(y)*b.GridSpacingY + 0.5)
-		yEnd := int32((float32(y)+1)*b.GridSpacingY + 0.5)
-		if yEnd > b.Height {
-			yEnd = b.Height
-		}
-
-		for x := int32(0); x < b.GridCellsX; x++ {
-			xStart := int32(float32(x)*b.GridSpacingX + 0.5)
-			xEnd := int32((float32(x)+1)*b.GridSpacingX + 0.5)
-			if xEnd > b.Width {
-				xEnd = b.Width
-			}
-
-			//LogPrintf("y %d yS %d yE %d x %d xS %d xE %d \n", y, yStart, yEnd, x, xStart, xEnd)
-			// Fit linear gradient to masked source image within that cell
-			c := y*b.GridCellsX + x
-			b.Cells[c] = FitCell(src, b.Width, sigma, xStart, xEnd, yStart, yEnd, b.CellStars[c], b.HFRFactor, medBuffer, madBuffer)
-		}
-	}
-}
-
-// Clips the top n entries from the background gradient
-func (b *Background) clip(n int32, logWriter io.Writer) {
-	buffer := make([]float32, 0, b.GridCells)
-	for _, cell := range b.Cells {
-		if !math.IsNaN(float64(cell)) {
-			buffer = append(buffer, cell)
-		}
-	}
-	if int(n) >= len(buffer) { // keep at least one cell to interpolate from
-		n = int32(len(buffer)) - 1
-	}
-	if n <= 0 {
-		return
-	}
-	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
-	buffer = nil
-
-	ignoredCells := int32(0)
-	for i, cell := range b.Cells {
-		if cell > threshold {
-			b.Cells[i] = float32(math.NaN())
-			ignoredCells++
-		}
-	}
-	for i, cell := range b.Cells { // among equal cells, clip only as many as asked for
-		if cell == threshold && ignoredCells < n {
-			b.Cells[i] = float32(math.NaN())
-			ignoredCells++
-		}
-	}
-
-	//fmt.Fprintf(logWriter, "n=%d: %d ignored cells based on threshold %f\n", n, ignoredCells, threshold)
-	//LogPrintln(b.CellsString())
-	b.OutlierCells = ignoredCells
-
-}
-
-// Replaces missing cells (NaN) with interpolations from their neighbors
-func (b *Background) fillMissing() {
-	for neighbors := 8; neighbors >= 1; neighbors-- {
-		numChanged := 1
-		for numChanged > 0 {
-			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
-		}
-	}
-	// with no valid cells at all, there is no background to be found
-	for i, cell := range b.Cells {
-		if math.IsNaN(float64(cell)) {
-			b.Cells[i] = 0
-		}
-	}
-}
-
-func (b *Background) smoothe() {
-	tmp := make([]float32, len(b.Cells))
-	gauss3x3(tmp, b.Cells, b.GridCellsX)
-	b.Cells = tmp
-}
-
-func gauss3x3(res, data []float32, width int32) {
-	height := int32(len(data)) / width
-	for y := int32(0); y < height; y++ {
-		for x := int32(0); x < width; x++ {
-			res[y*width+x] = gauss3x3Point(data, width, height, x, y)
-		}
-	}
-}
-
-// var gauss3x3Weights=[]float32{0.195346, 0.123317, 0.077847} // sigma 1.0
-var gauss3x3Weights = []float32{0.468592, 0.107973, 0.024879} // sigma 0.5
-
-func gauss3x3Point(data []float32, width, height, x, y int32) float32 {
-	runningSum := float32(0)
-	weightSum := float32(0)
-
-	for offY := int32(-1); offY <= 1; offY++ {
-		for offX := int32(-1); offX <= 1; offX++ {
-			x2, y2 := x+offX, y+offY
-			if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
-				index := x2 + y2*width
-				d := data[index]
-				weight := gauss3x3Weights[offX*offX+offY*offY]
-				runningSum += d * weight
-				weightSum += weight
-			}
-		}
-	}
-
-	return runningSum / weightSum
-}
-
-func (bg *Background) calculateStats() {
-	mf32 := float32(math.MaxFloat32)
-	bg.Min = mf32
-	bg.Max = -mf32
-	for _, c := range bg.Cells {
-		if c < bg.Min {
-			bg.Min = c
-		}
-		if c > bg.Max {
-			bg.Max = c
-		}
-	}
-}
-
-// Smoothes a parameter
-func interpolate(params []float32, width, height int32, neighbors int) (numChanges int) {
-	temp := []float32{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
-	numChanges = 0
-
-	for y := int32(0); y < height; y++ {
-		for x := int32(0); x < width; x++ {
-			index := y*width + x
-			p := params[index]
-			if math.IsNaN(float64(p)) {
-				predict, numGathered := MedianInterpolation(params, width, height, x, y, temp)
-				if numGathered >= neighbors {
-					//LogPrintf("Replacing prediction for x%d y%d of %f with %f\n", x, y, p, predict)
-					params[index] = predict
-					numChanges++
-				}
-			}
-		}
-	}
-	return numChanges
-}
-
-var interpolOffsets = []pairOfint32{
-	{-1, -1},
-	{0, -1},
-	{1, -1},
-	{-1, 0},
-	{1, 0},
-	{-1, 1},
-	{0, 1},
-	{1, 1},
-}
-
-// Interpolate parameter from valid entries in local 1-neighborhood via median
-func MedianInterpolation(params []float32, width, height, x, y int32, temp []float32) (med float32, numGathered int) {
-	numGathered = 0
-
-	for _, off := range interpolOffsets {
-		x2, y2 := x+off.X, y+off.Y
-		if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
-			index := x2 + y2*width
-			p := params[index]
-			if !math.IsNaN(float64(p)) {
-				temp[numGathered] = p
-				numGathered++
-			}
-		}
-	}
-
-	med = median.MedianFloat32(temp[:numGathered])
-	return med, numGathered
-}
-
-// Render full background into a data array, returning the array
-func (b Background) Render() (dest []float32) {
-	dest = make([]float32, b.Width*b.Height)
-
-	srcYl := int32(-1)
-	srcYh := int32(0)
-	destYl := int32(-0.5*b.GridSpacingY - 0.5)
-	destYh := int32(0.5*b.GridSpacingY + 0.5)
-	destYSpan := 1.0 / float32(destYh-destYl)
-
-	for destY := int32(0); destY < b.Height; destY++ {
-		if destY >= destYh {
-			srcYl = srcYh
-			srcYh = srcYh + 1
-			destYl = destYh
-			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
-			destYSpan = 1.0 / float32(destYh-destYl)
-		}
-		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
-
-		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
-
-		srcXl := int32(-1)
-		srcXh := int32(0)
-		destXl := int32(-0.5*b.GridSpacingX - 0.5)
-		destXh := int32(0.5*b.GridSpacingX + 0.5)
-		destXSpan := 1.0 / float32(destXh-destXl)
-
-		for destX := int32(0); destX < b.Width; destX++ {
-			if destX >= destXh {
-				srcXl = srcXh
-				srcXh = srcXh + 1
-				destXl = destXh
-				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
-				destXSpan = 1.0 / float32(destXh-destXl)
-			}
-			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
-
-			// perform bilinear interpolation
-			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
-
-			if xl < 0 {
-				xl++
-				xh++
-			}
-			if xh >= b.GridCellsX {
-				xl--
-				xh--
-			}
-			if yl < 0 {
-				yl++
-				yh++
-			}
-			if yh >= b.GridCellsY {
-				yl--
-				yh--
-			}
-			if xl < 0 { // only one cell in this direction
-				xl, xh = 0, 0
-			}
-			if yl < 0 {
-				yl, yh = 0, 0
-			}
-			xr, yr := srcX-float32(xl), srcY-float32(yl)
-
-			xlyl := xl + yl*b.GridCellsX
-			xhyl := xh + yl*b.GridCellsX
-			xlyh := xl + yh*b.GridCellsX
-			xhyh := xh + yh*b.GridCellsX
-
-			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
-			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
-			v := vyl*(1-yr) + vyh*yr
-
-			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
-			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
-			dest[destX+destY*b.Width] = v
-		}
-	}
-
-	return dest
-}
-
-// Subtract full background from given data array, changing it in place.
-func (b Background) Subtract(dest []float32) error {
-	if int(b.Width)*int(b.Height) != len(dest) {
-		return fmt.Errorf("Background size %dx%d does not match destination image size %d", b.Width, b.Height, len(dest))
-	}
-
-	srcYl := int32(-1)
-	srcYh := int32(0)
-	destYl := int32(-0.5*b.GridSpacingY - 0.5)
-	destYh := int32(0.5*b.GridSpacingY + 0.5)
-	destYSpan := 1.0 / float32(destYh-destYl)
-
-	for destY := int32(0); destY < b.Height; destY++ {
-		if destY >= destYh {
-			srcYl = srcYh
-			srcYh = srcYh + 1
-			destYl = destYh
-			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
-			destYSpan = 1.0 / float32(destYh-destYl)
-		}
-		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
-
-		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
-
-		srcXl := int32(-1)
-		srcXh := int32(0)
-		destXl := int32(-0.5*b.GridSpacingX - 0.5)
-		destXh := int32(0.5*b.GridSpacingX + 0.5)
-		destXSpan := 1.0 / float32(destXh-destXl)
-
-		for destX := int32(0); destX < b.Width; destX++ {
-			if destX >= destXh {
-				srcXl = srcXh
-				srcXh = srcXh + 1
-				destXl = destXh
-				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
-				destXSpan = 1.0 / float32(destXh-destXl)
-			}
-			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
-
-			// perform bilinear interpolation
-			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
-
-			if xl < 0 {
-				xl++
-				xh++
-			}
-			if xh >= b.GridCellsX {
-				xl--
-				xh--
-			}
-			if yl < 0 {
-				yl++
-				yh++
-			}
-			if yh >= b.GridCellsY {
-				yl--
-				yh--
-			}
-			if xl < 0 { // only one cell in this direction
-				xl, xh = 0, 0
-			}
-			if yl < 0 {
-				yl, yh = 0, 0
-			}
-			xr, yr := srcX-float32(xl), srcY-float32(yl)
-
-			xlyl := xl + yl*b.GridCellsX
-			xhyl := xh + yl*b.GridCellsX
-			xlyh := xl + yh*b.GridCellsX
-			xhyh := xh + yh*b.GridCellsX
-
-			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
-			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
-			v := vyl*(1-yr) + vyh*yr
-
-			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
-			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
-			dest[destX+destY*b.Width] -= v
-		}
-	}
-	return nil
-}
-
-// Fit background cell to given source image, except where masked out
-func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
-	// Gather grid cell contents without known stars
-	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
-	if len(medBuffer) == 0 { // stars cover the entire cell
-		return float32(math.NaN())
-	}
-
-	// Approximate the local background histogram peak location via median. Reorders the buffer
-	median := qsort.QSelectMedianFloat32(medBuffer)
-
-	// Approximate the local background histogram peak scale via MAD
-	for i, b := range medBuffer {
-		madBuffer[i] = float32(math.Abs(float64(b - median)))
-	}
-	madBuffer = madBuffer[:len(medBuffer)]
-	mad := qsort.QSelectMedianFloat32(madBuffer)
-	stdDev := mad * 1.4826 // factor normalizes MAD to Gaussian standard deviation
-	upperBound := median + sigma*stdDev
-
-	// Calculate trimmed median without upward outliers
-	numSamples := 0
-	for _, v := range medBuffer {
-		if v <= upperBound {
-			medBuffer[numSamples] = v
-			numSamples++
-		}
-	}
-	medBuffer = medBuffer[:numSamples]
-	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
-	return trimmedMedian
-}
-
-// Calculates the median and the MAD of the given grid cell of the image, masking out stars
-func gatherWithoutStars(src []float32, width int32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, buffer []float32) (res []float32) {
-	numSamples := 0
-	for y := yStart; y < yEnd; y++ {
-	nextPixelInRow:
-		for x := xStart; x < xEnd; x++ {
-			// filter out coordinates vs. stars in this bin
-			for _, s := range stars {
-				dx, dy := float32(x)-s.X, float32(y)-s.Y
-				distSq := dx*dx + dy*dy
-				hfrSq := s.HFR * s.HFR * hfrFactor * hfrFactor
-				if distSq <= hfrSq {
-					continue nextPixelInRow
-				}
-			}
-
-			offset := x + y*width
-			buffer[numSamples] = src[offset]
-			numSamples++
-		}
-	}
-	return buffer[:numSamples]
-}
+// Copyright (C) 2020 Markus L. Noga
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+package pre
+
+import (
+	"fmt"
+	"io"
+	"math"
+	"strings"
+
+	"github.com/mlnoga/nightlight/internal/median"
+	"github.com/mlnoga/nightlight/internal/qsort"
+	"github.com/mlnoga/nightlight/internal/star"
+)
+
+// A piecewise linear background, for automated background extraction (ABE)
+type Background struct {
+	Width        int32         // original image width
+	Height       int32         // original image height
+	GridSpacing  int32         // approximate grid spacing as given by user
+	GridSpacingX float32       // fine grid spacing for evenly sized cells, X direction
+	GridSpacingY float32       // fine grid spacing for evenly sized cells, Y direction
+	GridCellsX   int32         // number of grid cells, X direction
+	GridCellsY   int32         // number of grid cells, Y direction
+	GridCells    int32         // number of grid cells, total = X * Y
+	Cells        []float32     // grid cell values
+	OutlierCells int32         // number of outlier cells replaced with interpolation of neighboring cells
+	Max          float32       // maximum alpha, beta, gamma values
+	Min          float32       // minimum alpha, beta, gamma values
+	CellStars    [][]star.Star // stars relevant for a given cell
+	HFRFactor    float32       // multiplier for HFRs
+}
+
+func (b *Background) String() string {
+	return fmt.Sprintf("Background grid %d cells %dx%d outliers %d range [%f...%f]",
+		b.GridSpacing, b.GridCellsX, b.GridCellsY, b.OutlierCells,
+		b.Min, b.Max)
+}
+
+func (b *Background) CellsString() string {
+	sb := &strings.Builder{}
+
+	for y := int32(0); y < b.GridCellsY; y++ {
+		fmt.Fprintf(sb, "%2d:", y)
+		for x := int32(0); x < b.GridCellsX; x++ {
+			c := y*b.GridCellsX + x
+			fmt.Fprintf(sb, " %4.0f", b.Cells[c])
+		}
+		sb.WriteString("\n")
+	}
+	return sb.String()
+}
+
+// Creates new background by fitting linear gradients to grid cells of the given image, masking out areas in given mask
+func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32, backClip int32, stars []star.Star, hfrFactor float32, logWriter io.Writer) (b *Background) {
+	// Allocate space for gradient cells
+	height := int32(len(src) / int(width))
+
+	gridCellsX := (width + gridSpacing/2) / gridSpacing
+	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsX < 1 {
+		gridCellsX = 1
+	}
+	if gridCellsY < 1 {
+		gridCellsY = 1
+	}
+	gridCells := gridCellsX * gridCellsY
+	gridSpacingX := float32(width) / float32(gridCellsX)
+	gridSpacingY := float32(height) / float32(gridCellsY)
+	cells := make([]float32, gridCells)
+	cellStars := make([][]star.Star, gridCells)
+
+	//LogPrintf("GridCells x %d y %d total %d GridSpacing x %.2f y %.2f\n", gridCellsX, gridCellsY, gridCells, gridSpacingX, gridSpacingY)
+	b = &Background{Width: width, Height: height, GridSpacing: gridSpacing,
+		GridSpacingX: gridSpacingX, GridSpacingY: gridSpacingY,
+		GridCellsX: gridCellsX, GridCellsY: gridCellsY, GridCells: gridCells, Cells: cells,
+		CellStars: cellStars, HFRFactor: hfrFactor}
+
+	b.binStarsIntoCells(stars)
+
+	b.init(src, sigma)
+	//LogPrintf("Sigma %f\n", sigma)
+	//LogPrintln(b.CellsString())
+
+	if backClip > 0 {
+		b.clip(backClip, logWriter)
+		//LogPrintf("Clip %d\n", backClip)
+		//LogPrintln(b.CellsString())
+	}
+
+	b.fillMissing()
+
+	b.smoothe()
+	//LogPrintln("Smooth")
+	//LogPrintln(b.CellsString())
+
+	b.calculateStats()
+
+	return b
+}
+
+// For each grid cell, put the stars relevant for it into the respective bin
+func (b *Background) binStarsIntoCells(stars []star.Star) {
+	cs := b.CellStars
+	for _, s := range stars {
+		// Trace all cells touched by the square around the star, with one pixel margin for rounding of cell edges
+		radius := s.HFR*b.HFRFactor + 1
+		cellXStart := limit(int32((s.X-radius)/b.GridSpacingX), b.GridCellsX)
+		cellXEnd := limit(int32((s.X+radius)/b.GridSpacingX), b.GridCellsX)
+		cellYStart := limit(int32((s.Y-radius)/b.GridSpacingY), b.GridCellsY)
+		cellYEnd := limit(int32((s.Y+radius)/b.GridSpacingY), b.GridCellsY)
+		for cellY := cellYStart; cellY <= cellYEnd; cellY++ {
+			for cellX := cellXStart; cellX <= cellXEnd; cellX++ {
+				cellOffset := cellY*b.GridCellsX + cellX
+				cs[cellOffset] = append(cs[cellOffset], s)
+			}
+		}
+	}
+}
+
+// Limits x to the range [0, n-1]
+func limit(x, n int32) int32 {
+	if x < 0 {
+		return 0
+	}
+	if x >= n {
+		return n - 1
+	}
+	return x
+}
+
+// Initialize background by approximating each grid cell with a linear gradient
+func (b *Background) init(src []float32, sigma float32) {
+	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
+	medBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
+	madBuffer := make([]float32, bufSize) // reuse for all grid cells to ease GC pressure
+
+	// For all grid cells
+	for y := int32(0); y < b.GridCellsY; y++ {
+		yStart := int32(float32(y)*b.GridSpacingY + 0.5)
+		yEnd := int32((float32(y)+1)*b.GridSpacingY + 0.5)
+		if yEnd > b.Height {
+			yEnd = b.Height
+		}
+
+		for x := int32(0); x < b.GridCellsX; x++ {
+			xStart := int32(float32(x)*b.GridSpacingX + 0.5)
+			xEnd := int32((float32(x)+1)*b.GridSpacingX + 0.5)
+			if xEnd > b.Width {
+				xEnd = b.Width
+			}
+
+			//LogPrintf("y %d yS %d yE %d x %d xS %d xE %d \n", y, yStart, yEnd, x, xStart, xEnd)
+			// Fit linear gradient to masked source image within that cell
+			c := y*b.GridCellsX + x
+			b.Cells[c] = FitCell(src, b.Width, sigma, xStart, xEnd, yStart, yEnd, b.CellStars[c], b.HFRFactor, medBuffer, madBuffer)
+		}
+	}
+}
+
+// Clips the top n entries from the background gradient
+func (b *Background) clip(n int32, logWriter io.Writer) {
+	buffer := make([]float32, 0, b.GridCells)
+	for _, cell := range b.Cells {
+		if !math.IsNaN(float64(cell)) {
+			buffer = append(buffer, cell)
+		}
+	}
+	if int(n) >= len(buffer) { // keep at least one cell to interpolate from
+		n = int32(len(buffer)) - 1
+	}
+	if n <= 0 {
+		return
+	}
+	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
+	buffer = nil
+
+	ignoredCells := int32(0)
+	for i, cell := range b.Cells {
+		if cell > threshold {
+			b.Cells[i] = float32(math.NaN())
+			ignoredCells++
+		}
+	}
+	for i, cell := range b.Cells { // among equal cells, clip only as many as asked for
+		if cell == threshold && ignoredCells < n {
+			b.Cells[i] = float32(math.NaN())
+			ignoredCells++
+		}
+	}
+
+	//fmt.Fprintf(logWriter, "n=%d: %d ignored cells based on threshold %f\n", n, ignoredCells, threshold)
+	//LogPrintln(b.CellsString())
+	b.OutlierCells = ignoredCells
+
+}
+
+// Replaces missing cells (NaN) with interpolations from their neighbors
+func (b *Background) fillMissing() {
+	for neighbors := 8; neighbors >= 1; neighbors-- {
+		numChanged := 1
+		for numChanged > 0 {
+			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
+		}
+	}
+	// with no valid cells at all, there is no background to be found
+	for i, cell := range b.Cells {
+		if math.IsNaN(float64(cell)) {
+			b.Cells[i] = 0
+		}
+	}
+}
+
+func (b *Background) smoothe() {
+	tmp := make([]float32, len(b.Cells))
+	gauss3x3(tmp, b.Cells, b.GridCellsX)
+	b.Cells = tmp
+}
+
+func gauss3x3(res, data []float32, width int32) {
+	height := int32(len(data)) / width
+	for y := int32(0); y < height; y++ {
+		for x := int32(0); x < width; x++ {
+			res[y*width+x] = gauss3x3Point(data, width, height, x, y)
+		}
+	}
+}
+
+// var gauss3x3Weights=[]float32{0.195346, 0.123317, 0.077847} // sigma 1.0
+var gauss3x3Weights = []float32{0.468592, 0.107973, 0.024879} // sigma 0.5
+
+func gauss3x3Point(data []float32, width, height, x, y int32) float32 {
+	runningSum := float32(0)
+	weightSum := float32(0)
+
+	for offY := int32(-1); offY <= 1; offY++ {
+		for offX := int32(-1); offX <= 1; offX++ {
+			x2, y2 := x+offX, y+offY
+			if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
+				index := x2 + y2*width
+				d := data[index]
+				weight := gauss3x3Weights[offX*offX+offY*offY]
+				runningSum += d * weight
+				weightSum += weight
+			}
+		}
+	}
+
+	return runningSum / weightSum
+}
+
+func (bg *Background) calculateStats() {
+	mf32 := float32(math.MaxFloat32)
+	bg.Min = mf32
+	bg.Max = -mf32
+	for _, c := range bg.Cells {
+		if c < bg.Min {
+			bg.Min = c
+		}
+		if c > bg.Max {
+			bg.Max = c
+		}
+	}
+}
+
+// Smoothes a parameter
+func interpolate(params []float32, width, height int32, neighbors int) (numChanges int) {
+	temp := []float32{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
+	numChanges = 0
+
+	for y := int32(0); y < height; y++ {
+		for x := int32(0); x < width; x++ {
+			index := y*width + x
+			p := params[index]
+			if math.IsNaN(float64(p)) {
+				predict, numGathered := MedianInterpolation(params, width, height, x, y, temp)
+				if numGathered >= neighbors {
+					//LogPrintf("Replacing prediction for x%d y%d of %f with %f\n", x, y, p, predict)
+					params[index] = predict
+					numChanges++
+				}
+			}
+		}
+	}
+	return numChanges
+}
+
+var interpolOffsets = []pairOfint32{
+	{-1, -1},
+	{0, -1},
+	{1, -1},
+	{-1, 0},
+	{1, 0},
+	{-1, 1},
+	{0, 1},
+	{1, 1},
+}
+
+// Interpolate parameter from valid entries in local 1-neighborhood via median
+func MedianInterpolation(params []float32, width, height, x, y int32, temp []float32) (med float32, numGathered int) {
+	numGathered = 0
+
+	for _, off := range interpolOffsets {
+		x2, y2 := x+off.X, y+off.Y
+		if x2 >= 0 && x2 < width && y2 >= 0 && y2 < height {
+			index := x2 + y2*width
+			p := params[index]
+			if !math.IsNaN(float64(p)) {
+				temp[numGathered] = p
+				numGathered++
+			}
+		}
+	}
+
+	med = median.MedianFloat32(temp[:numGathered])
+	return med, numGathered
+}
+
+// Render full background into a data array, returning the array
+func (b Background) Render() (dest []float32) {
+	dest = make([]float32, b.Width*b.Height)
+
+	srcYl := int32(-1)
+	srcYh := int32(0)
+	destYl := int32(-0.5*b.GridSpacingY - 0.5)
+	destYh := int32(0.5*b.GridSpacingY + 0.5)
+	destYSpan := 1.0 / float32(destYh-destYl)
+
+	for destY := int32(0); destY < b.Height; destY++ {
+		if destY >= destYh {
+			srcYl = srcYh
+			srcYh = srcYh + 1
+			destYl = destYh
+			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
+			destYSpan = 1.0 / float32(destYh-destYl)
+		}
+		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
+
+		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
+
+		srcXl := int32(-1)
+		srcXh := int32(0)
+		destXl := int32(-0.5*b.GridSpacingX - 0.5)
+		destXh := int32(0.5*b.GridSpacingX + 0.5)
+		destXSpan := 1.0 / float32(destXh-destXl)
+
+		for destX := int32(0); destX < b.Width; destX++ {
+			if destX >= destXh {
+				srcXl = srcXh
+				srcXh = srcXh + 1
+				destXl = destXh
+				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
+				destXSpan = 1.0 / float32(destXh-destXl)
+			}
+			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
+
+			// perform bilinear interpolation
+			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
+
+			if xl < 0 {
+				xl++
+				xh++
+			}
+			if xh >= b.GridCellsX {
+				xl--
+				xh--
+			}
+			if yl < 0 {
+				yl++
+				yh++
+			}
+			if yh >= b.GridCellsY {
+				yl--
+				yh--
+			}
+			if xl < 0 { // only one cell in this direction
+				xl, xh = 0, 0
+			}
+			if yl < 0 {
+				yl, yh = 0, 0
+			}
+			xr, yr := srcX-float32(xl), srcY-float32(yl)
+
+			xlyl := xl + yl*b.GridCellsX
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
+
+			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
+			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
+			v := vyl*(1-yr) + vyh*yr
+
+			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
+			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
+			dest[destX+destY*b.Width] = v
+		}
+	}
+
+	return dest
+}
+
+// Subtract full background from given data array, changing it in place.
+func (b Background) Subtract(dest []float32) error {
+	if int(b.Width)*int(b.Height) != len(dest) {
+		return fmt.Errorf("Background size %dx%d does not match destination image size %d", b.Width, b.Height, len(dest))
+	}
+
+	srcYl := int32(-1)
+	srcYh := int32(0)
+	destYl := int32(-0.5*b.GridSpacingY - 0.5)
+	destYh := int32(0.5*b.GridSpacingY + 0.5)
+	destYSpan := 1.0 / float32(destYh-destYl)
+
+	for destY := int32(0); destY < b.Height; destY++ {
+		if destY >= destYh {
+			srcYl = srcYh
+			srcYh = srcYh + 1
+			destYl = destYh
+			destYh = int32((float32(srcYh)+0.5)*b.GridSpacingY + 0.5)
+			destYSpan = 1.0 / float32(destYh-destYl)
+		}
+		srcY := float32(srcYl) + float32(destY-destYl)*destYSpan
+
+		//LogPrintf("dest yl %d y %d yh %d  src yl %d y %f yh %d\n", destYl, destY, destYh, srcYl, srcY, srcYh)
+
+		srcXl := int32(-1)
+		srcXh := int32(0)
+		destXl := int32(-0.5*b.GridSpacingX - 0.5)
+		destXh := int32(0.5*b.GridSpacingX + 0.5)
+		destXSpan := 1.0 / float32(destXh-destXl)
+
+		for destX := int32(0); destX < b.Width; destX++ {
+			if destX >= destXh {
+				srcXl = srcXh
+				srcXh = srcXh + 1
+				destXl = destXh
+				destXh = int32((float32(srcXh)+0.5)*b.GridSpacingX + 0.5)
+				destXSpan = 1.0 / float32(destXh-destXl)
+			}
+			srcX := float32(srcXl) + float32(destX-destXl)*destXSpan
+
+			// perform bilinear interpolation
+			xl, yl, xh, yh := srcXl, srcYl, srcXh, srcYh
+
+			if xl < 0 {
+				xl++
+				xh++
+			}
+			if xh >= b.GridCellsX {
+				xl--
+				xh--
+			}
+			if yl < 0 {
+				yl++
+				yh++
+			}
+			if yh >= b.GridCellsY {
+				yl--
+				yh--
+			}
+			if xl < 0 { // only one cell in this direction
+				xl, xh = 0, 0
+			}
+			if yl < 0 {
+				yl, yh = 0, 0
+			}
+			xr, yr := srcX-float32(xl), srcY-float32(yl)
+
+			xlyl := xl + yl*b.GridCellsX
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
+
+			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
+			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
+			v := vyl*(1-yr) + vyh*yr
+
+			//LogPrintf("x%d y%d xSrc%f ySrc%f xl%d yl%d xh%d yh%d v%f\n",
+			//	x,y,xSrc,ySrc,xl,yl,xh,yh,v)
+			dest[destX+destY*b.Width] -= v
+		}
+	}
+	return nil
+}
+
+// Fit background cell to given source image, except where masked out
+func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
+	// Gather grid cell contents without known stars
+	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	if len(medBuffer) == 0 { // stars cover the entire cell
+		return float32(math.NaN())
+	}
+
+	// Approximate the local background histogram peak location via median. Reorders the buffer
+	median := qsort.QSelectMedianFloat32(medBuffer)
+
+	// Approximate the local background histogram peak scale via MAD
+	for i, b := range medBuffer {
+		madBuffer[i] = float32(math.Abs(float64(b - median)))
+	}
+	madBuffer = madBuffer[:len(medBuffer)]
+	mad := qsort.QSelectMedianFloat32(madBuffer)
+	stdDev := mad * 1.4826 // factor normalizes MAD to Gaussian standard deviation
+	upperBound := median + sigma*stdDev
+
+	// Calculate trimmed median without upward outliers
+	numSamples := 0
+	for _, v := range medBuffer {
+		if v <= upperBound {
+			medBuffer[numSamples] = v
+			numSamples++
+		}
+	}
+	medBuffer = medBuffer[:numSamples]
+	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
+	return trimmedMedian
+}
+
+// Calculates the median and the MAD of the given grid cell of the image, masking out stars
+func gatherWithoutStars(src []float32, width int32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, buffer []float32) (res []float32) {
+	numSamples := 0
+	for y := yStart; y < yEnd; y++ {
+	nextPixelInRow:
+		for x := xStart; x < xEnd; x++ {
+			// filter out coordinates vs. stars in this bin
+			for _, s := range stars {
+				dx, dy := float32(x)-s.X, float32(y)-s.Y
+				distSq := dx*dx + dy*dy
+				hfrSq := s.HFR * s.HFR * hfrFactor * hfrFactor
+				if distSq <= hfrSq {
+					continue nextPixelInRow
+				}
+			}
+
+			offset := x + y*width
+			buffer[numSamples] = src[offset]
+			numSamples++
+		}
+	}
+	return buffer[:numSamples]
+}
-- 
2.43.0


From df80d7606af3b0bc08dee70f8e6c284c655f314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 87/97] fix: let each calibration step use its own dark and
 flat frames

Frames were kept in the context for all steps, so a further step in the same
job used the frames of the first, and a step without dark or flat applied those
of an earlier one.
---
 internal/ops/operator.go           |  2 +
 internal/ops/pre/preprocess.go     | 77 ++++++++++++++----------------
 internal/ops/stack/stackbatches.go |  1 +
 3 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 08857c7..285d948 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -25,6 +25,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/star"
@@ -41,6 +42,7 @@ type Context struct {
 	MaxThreads      int `json:"maxThreads"`
 	DarkFrame       *fits.Image
 	FlatFrame       *fits.Image
+	CalFrames       sync.Map // dark and flat frames by file name
 	AlignNaxisn     []int32
 	AlignStars      []star.Star
 	AlignHFR        float32
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index a1e22ea..8b1b5c2 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -67,80 +67,77 @@ func (op *OpCalibrate) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if err = op.init(c); err != nil {
+	darkFrame, flatFrame, err := op.init(c)
+	if err != nil {
 		return nil, err
 	} // lazy init of dark and flat frames
 
-	if c.DarkFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.DarkFrame.Naxisn) {
-			if f.Pixels!=c.DarkFrame.Pixels {
+	if darkFrame != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, darkFrame.Naxisn) {
+			if f.Pixels!=darkFrame.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from dark dimensions %v",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, darkFrame.Naxisn)
 			}
 			fmt.Printf("%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, darkFrame.Naxisn)
 		}
-		Subtract(f.Data, f.Data, c.DarkFrame.Data)
+		Subtract(f.Data, f.Data, darkFrame.Data)
 		f.Stats.Clear()
 	}
 
-	if c.FlatFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.FlatFrame.Naxisn) {
-			if f.Pixels!=c.FlatFrame.Pixels {
+	if flatFrame != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, flatFrame.Naxisn) {
+			if f.Pixels!=flatFrame.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from flat dimensions %v",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flatFrame.Naxisn)
 			}
 			fmt.Printf("%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flatFrame.Naxisn)
 		}
-		Divide(f.Data, f.Data, c.FlatFrame.Data, c.FlatFrame.Stats.Max())
+		Divide(f.Data, f.Data, flatFrame.Data, flatFrame.Stats.Max())
 		f.Stats.Clear()
 	}
 	return f, nil
 }
 
 // Load dark and flat frames if applicable
-func (op *OpCalibrate) init(c *ops.Context) error {
+func (op *OpCalibrate) init(c *ops.Context) (darkFrame, flatFrame *fits.Image, err error) {
 	op.mutex.Lock()
 	defer op.mutex.Unlock()
-	if !((op.Dark != "" && c.DarkFrame == nil) ||
-		(op.Flat != "" && c.FlatFrame == nil)) {
-		return nil
-	}
 
-	var promises []ops.Promise
+	var images [2]*fits.Image
 	for i, name := range []string{op.Dark, op.Flat} {
 		if name != "" {
+			// other calibration steps in the same context can use other frames, so tell them apart by name
+			if frame, ok := c.CalFrames.Load(name); ok {
+				images[i] = frame.(*fits.Image)
+				continue
+			}
 			promise, err := ops.NewOpLoad(-(i+1), name).MakePromises(nil, c)
 			if err != nil {
-				return err
+				return nil, nil, err
 			}
 			if len(promise) != 1 {
-				return errors.New("load operator did not create exactly one promise")
+				return nil, nil, errors.New("load operator did not create exactly one promise")
+			}
+			if images[i], err = promise[0](); err != nil {
+				return nil, nil, err
+			}
+			c.CalFrames.Store(name, images[i])
+			if i == 0 {
+				c.DarkFrame = images[i]
+			} else {
+				c.FlatFrame = images[i]
 			}
-			promises = append(promises, promise[0])
-		}
-	}
-
-	images, err := ops.MaterializeAll(promises, c.MaxThreads, false)
-	if err != nil {
-		return err
-	}
-
-	if op.Dark != "" {
-		c.DarkFrame = images[0]
-		if op.Flat != "" {
-			c.FlatFrame = images[1]
 		}
-	} else if op.Flat != "" {
-		c.FlatFrame = images[0]
 	}
+	darkFrame, flatFrame = images[0], images[1]
 
-	if c.DarkFrame != nil && c.FlatFrame != nil && !fits.EqualInt32Slice(c.DarkFrame.Naxisn, c.FlatFrame.Naxisn) {
-		return fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
-			c.DarkFrame.Naxisn, c.FlatFrame.Naxisn)
+	if darkFrame != nil && flatFrame != nil && !fits.EqualInt32Slice(darkFrame.Naxisn, flatFrame.Naxisn) {
+		return nil, nil, fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
+			darkFrame.Naxisn, flatFrame.Naxisn)
 	}
-	return nil
+	return darkFrame, flatFrame, nil
 }
 
 type OpBadPixel struct {
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index a7fb61f..de770c6 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -111,6 +111,7 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 
 	// Free more memory; primary frames already freed after stacking
 	c.DarkFrame, c.FlatFrame = nil, nil
+	c.CalFrames = sync.Map{}
 	debug.FreeOSMemory()
 
 	if numBatches > 1 {
-- 
2.43.0


From 64be590cd82241302c5abe62e69f50c3edf10b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 88/97] fix: find the black point of images with fewer pixels
 than histogram bins

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index d403b03..fc72c24 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -730,7 +730,7 @@ func (f* Image) SetBlackWhite(blackPerc, whitePerc float32, logWriter io.Writer)
 
 	// calculate black level
 	blackPixels, blackIndex:=int32(0), int32(0)
-	for i:=0; i<l; i++ {
+	for i:=0; i<len(hist); i++ {
 		h:=hist[i]
 		if (blackPixels+h)>int32(blackPerc*0.01*float32(l)) {
 			blackIndex=int32(i)
-- 
2.43.0


From 10eb5784f277de0946e3a894076bedae8d7a58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 89/97] fix: weightless values don't overflow the biweight
 midvariance, which kept the IKSS estimator from terminating

---
 internal/stats/stats.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 99b12c6..29ad395 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -567,18 +567,17 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	numSum, denomSum := float32(0), float32(0)
 	for i, x := range xs {
 		y := ys[i]
-		a := float32(0)
-		if y > -1 && y < 1 {
-			a = float32(1)
+		if !(y > -1 && y < 1) { // no weight. Don't evaluate the terms, which can overflow
+			continue
 		}
 
 		xMinusM := x - median
 		oneMinusYSquared := 1 - y*y
 		oneMinusYSquaredSquared := oneMinusYSquared * oneMinusYSquared
-		numSum += a * xMinusM * xMinusM * oneMinusYSquaredSquared * oneMinusYSquaredSquared
+		numSum += xMinusM * xMinusM * oneMinusYSquaredSquared * oneMinusYSquaredSquared
 
 		oneMinus5YSquared := 1 - 5*y*y
-		denomSum += a * oneMinusYSquared * oneMinus5YSquared
+		denomSum += oneMinusYSquared * oneMinus5YSquared
 	}
 	return float32(len(xs)) * numSum / (denomSum * denomSum)
 }
-- 
2.43.0


From 4695e51c0b78523a429027db6f07c24b3ca62537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 90/97] fix: estimating location and scale doesn't take minutes
 if hardly any values are left to sample pairs from

---
 internal/stats/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 29ad395..df095a7 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -526,9 +526,9 @@ func FastApproxSigmaClippedMedianAndQn(data []float32, sigmaLow, sigmaHigh float
 		lowBound := location - sigmaLow*scale
 		highBound := location + sigmaHigh*scale
 
-		// random sampling within bounds needs data to draw from. If there is none to speak of, e.g. with the median
+		// random sampling of pairs within bounds needs data to draw from. If there is hardly any, e.g. with the median
 		// in the gap between two clusters of equal values, clipping is pointless and we are done
-		if !hasWithinBounds(data, lowBound, highBound, 2+len(data)/1000) {
+		if !hasWithinBounds(data, lowBound, highBound, 2+len(data)/32) {
 			return location, scale
 		}
 
-- 
2.43.0


From 8d129edf50f939368f1dd406049d8bfac3e25c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:10 +0000
Subject: [PATCH 91/97] fix: calibration steps of one job don't race for the
 context's dark and flat frames

---
 internal/ops/operator.go       |  1 +
 internal/ops/pre/preprocess.go | 18 ++++++------------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 285d948..0e0ed6a 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -43,6 +43,7 @@ type Context struct {
 	DarkFrame       *fits.Image
 	FlatFrame       *fits.Image
 	CalFrames       sync.Map // dark and flat frames by file name
+	CalMutex        sync.Mutex // guards loading the dark and flat frames
 	AlignNaxisn     []int32
 	AlignStars      []star.Star
 	AlignHFR        float32
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 8b1b5c2..5db36b5 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -19,7 +19,6 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
-	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
@@ -29,9 +28,8 @@ import (
 
 type OpCalibrate struct {
 	ops.OpUnaryBase
-	Dark  string     `json:"dark"`
-	Flat  string     `json:"flat"`
-	mutex sync.Mutex `json:"-"`
+	Dark string `json:"dark"`
+	Flat string `json:"flat"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpCalibrateDefaults() }) } // register the operator for JSON decoding
@@ -56,12 +54,7 @@ func (op *OpCalibrate) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	// *op = OpCalibrate(def)   // triggers linter error "mutex passed by value", hence:
-	op.OpUnaryBase = def.OpUnaryBase
-	op.Dark = def.Dark
-	op.Flat = def.Flat
-	op.mutex = sync.Mutex{}
-
+	*op = OpCalibrate(def)
 	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
 	return nil
 }
@@ -102,8 +95,9 @@ func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 
 // Load dark and flat frames if applicable
 func (op *OpCalibrate) init(c *ops.Context) (darkFrame, flatFrame *fits.Image, err error) {
-	op.mutex.Lock()
-	defer op.mutex.Unlock()
+	// several calibration steps can run at a time in the same context, so lock that and not the step
+	c.CalMutex.Lock()
+	defer c.CalMutex.Unlock()
 
 	var images [2]*fits.Image
 	for i, name := range []string{op.Dark, op.Flat} {
-- 
2.43.0


From 519e658f8f44a5c24f5958a6326e3e8a61ab88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 92/97] fix: the command itself is not an input file name

The command line program passed the command to the loading step as the
first file name pattern, so a file called like the command in the working
directory became an additional input.
---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d04d5fe..d5319d8 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -277,7 +277,7 @@ Flags:
 
 	// glob filename arguments into an opLoadMany operator
 	var err error
-	opLoadMany := ops.NewOpLoadMany(args)
+	opLoadMany := ops.NewOpLoadMany(args[1:])
 
 	// parse preprocessing flags into preprocessing sequence operator
 	opDebayer := pre.NewOpDebayer(*debayer, *cfa)
-- 
2.43.0


From dd284e3d6861ea4d997d698de31f9670a2ae98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 93/97] fix: -lsEst also applies to the run command

Running a job from its JSON form ignored the selected location and scale
estimator and always used the default.
---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d5319d8..8b636d6 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -227,7 +227,7 @@ Flags:
 		flag.Usage()
 		return
 	}
-	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" {
+	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" || args[0] == "run" {
 		fmt.Fprintf(logWriter, "Using location and scale estimator %d\n", *lsEst)
 		stats.LSEstimator = stats.LSEstimatorMode(*lsEst)
 	}
-- 
2.43.0


From 9154e14a35d1e89529eabc43bd2969c1e2136c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:10 +0000
Subject: [PATCH 94/97] fix: the answer to a job posted repeats its steps

The sequence was marshalled by value, which bypasses its MarshalJSON on
the pointer receiver, so the arguments played back had steps null.
---
 internal/rest/serve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 0228cd5..c67707a 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -112,7 +112,7 @@ func postJob(c *gin.Context) {
 		logWriter.WriteHeader(http.StatusOK)
 
 		// play back arguments for debugging
-		if err := printOp(logWriter, "Arguments:\n", "\n", op); err != nil {
+		if err := printOp(logWriter, "Arguments:\n", "\n", &op); err != nil {
 			fmt.Fprintf(logWriter, "Error printing arguments: %s\n", err.Error())
 			return
 		}
-- 
2.43.0


From 08b07feed0c0f128b6dfdd6cd917e50e1dd99c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 95/97] fix: steps of a job posted don't write to the HTTP
 response at a time

The context's log was the response writer itself, which several goroutines
of a job wrote to without synchronisation. Log lines got lost or mixed up.
---
 internal/rest/serve.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index c67707a..6208cf4 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"net/http"
 	"runtime/debug"
+	"sync"
 
 	"github.com/gin-gonic/gin"
 
@@ -92,6 +93,18 @@ func printOp(logWriter io.Writer, prefix, suffix string, op interface{}) error {
 	return nil
 }
 
+// Serializes writes, as the steps of a job log concurrently
+type lockedWriter struct {
+	mutex  sync.Mutex
+	writer io.Writer
+}
+
+func (w *lockedWriter) Write(p []byte) (n int, err error) {
+	w.mutex.Lock()
+	defer w.mutex.Unlock()
+	return w.writer.Write(p)
+}
+
 func postJob(c *gin.Context) {
 	{
 		// raw,_:=c.GetRawData()
@@ -118,7 +131,7 @@ func postJob(c *gin.Context) {
 		}
 
 		// create promises for the given command sequence
-		oc := ops.NewContext(logWriter, stMemory, stats.LSESCMedianQn)
+		oc := ops.NewContext(&lockedWriter{writer: logWriter}, stMemory, stats.LSESCMedianQn)
 		promises, err := op.MakePromises(nil, oc)
 		if err != nil {
 			fmt.Fprintf(logWriter, "Error making promises: %s\n", err.Error())
-- 
2.43.0


From 06a3ae649512f7c6f0ad51c7d4679a0a7c840e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 96/97] fix: sorting and selection don't run past the array if
 it contains NaN

A scan for an element not below (not above) the pivot did not stop at NaN,
so frames with undefined pixels ended the program with an index out of
range. The order of NaN remains unspecified.
---
 internal/qsort/qsort.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/qsort/qsort.go b/internal/qsort/qsort.go
index f7ecf09..16389a9 100644
--- a/internal/qsort/qsort.go
+++ b/internal/qsort/qsort.go
@@ -44,11 +44,11 @@ func QPartitionFloat32(a []float32) int {
     for {
         for {
             l++
-            if a[l]>=pivot { break }
+            if !(a[l]<pivot) { break }
         }
         for {
             r--
-            if a[r]<=pivot { break }
+            if !(a[r]>pivot) { break }
         }
         if l >= r { return r }
         a[l], a[r] = a[r], a[l]
@@ -102,12 +102,12 @@ func QSelectFloat32(a []float32, k int) float32 {
             for {
                 l++
                 // if l>=len(a) { CheckNaNs(a) }
-                if a[l]>=pivot { break }
+                if !(a[l]<pivot) { break }
             }
             for {
                 r--
                 // if r<0 { CheckNaNs(a) }
-                if a[r]<=pivot { break }
+                if !(a[r]>pivot) { break }
             }
             if l >= r { break } // index in r
             a[l], a[r] = a[r], a[l]
-- 
2.43.0


From 7636c74bfb04f1182848c640cd35b3796d75e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 97/97] fix: selecting a reference for an unknown target is
 refused

A target other than alignment or histogram ended the program with an index
out of range.
---
 internal/ops/ref/refframe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index d52ab2a..0d8a9e1 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -89,6 +89,9 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	if len(ins) == 0 {
 		return nil, errors.New(fmt.Sprintf("%s operator needs inputs", op.Type))
 	}
+	if op.Target != SRAlign && op.Target != SRHisto {
+		return nil, fmt.Errorf("%s operator with invalid target %d", op.Type, op.Target)
+	}
 
 	outs = make([]ops.Promise, len(ins))
 	sel := &selection{}
-- 
2.43.0


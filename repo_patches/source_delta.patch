From cfe0421939935f9a579c23f700e384fc0c88abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:23 +0000
Subject: [PATCH 01/48] fix: ihex32: an extended linear address of 0000 must
 not end the offset pass

addOffsets took the init value of a data record for the trace of another
goroutine and stopped, so every later extended linear address record in its
range was ignored.
---
 ihex32/record.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..c6f03f0 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -66,7 +66,10 @@ forLoop:
 			offs = recs[i].offset
 			firstRecordAfterNewOffset = true
 		} else if recs[i].recordType == dataRecordToken {
-			if firstRecordAfterNewOffset && recs[i].offset == offs {
+			if offs == "0000" {
+				//"0000" is the init value of every data record, so it tells nothing about another goroutine having been here.
+				firstRecordAfterNewOffset = false
+			} else if firstRecordAfterNewOffset && recs[i].offset == offs {
 				recs[i].rwm.Unlock()
 				break forLoop
 			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
-- 
2.43.0


From 09b025e88023e57537efad064b0be38a894d622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/48] fix: ihex32: carry into the upper address half when a
 record crosses a 64K border

The Intel specification addresses byte i of a data record after an extended
linear address record as (LBA + DRLO + i) mod 4G; the 16 bit sum wrapped to the
start of the same segment instead.
---
 ihex32/record.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index c6f03f0..594a710 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -199,12 +199,17 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 		}
 		//add the offset to the existing address
 		bs = append(bs, lineAddressBytes...)
+		address := binary.BigEndian.Uint32(bs)
+		if int(lineAddress) < i {
+			//the line crosses a 64K border, the carry belongs to the upper 2 Byte of the address
+			address = address + 1<<16
+		}
 		b, err = hexToByte(s)
 		if err != nil {
 			return d, err
 		}
 		//construct data with final uint32 address and a byte as value
-		d = append(d, dataByte{address: binary.BigEndian.Uint32(bs), value: b})
+		d = append(d, dataByte{address: address, value: b})
 	}
 	return d, nil
 }
-- 
2.43.0


From e99874fde1f3cf0f8eab758696a476da4a11d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:06 +0000
Subject: [PATCH 03/48] fix: ihex32: report a line that is not a record instead
 of dropping the rest of its chunk

parseRecordRoutine stopped at the first line it could not parse and kept the
error to itself, so the records behind it were missing from the result without
an error, and how many depended on the number of processors.
---
 ihex32/hex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..e445fbe 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//recErr collects the lines that could not be parsed, each go routine stops at its first one
+	recErr := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, recErr, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,9 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	if len(recErr) != 0 {
+		return h, <-recErr
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -238,14 +243,15 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, recErr chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if len(l) >= 11 || strings.HasPrefix(l, beginLineToken) {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				recErr <- err
 				break forLoop
 			}
 			recs = append(recs, r)
-- 
2.43.0


From 8062b4af2610d3cba11296cd0f1d19a7a868b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:07 +0000
Subject: [PATCH 04/48] fix: ihex32: reject a record whose length does not
 match its byte count

A stray nibble in front of the checksum was skipped, and surplus or missing
data bytes went unnoticed when the checksum happened to match.
---
 ihex32/record.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 594a710..95d3663 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -31,14 +31,21 @@ func parseRecord(line string) (*record, error) {
 		r.byteCount = line[1:3]
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
+		n, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 11+2*int(n) {
+			return &r, errors.New("length of record does not match its byte count")
+		}
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
 		if r.recordType == extendedLinearAddressRecordToken {
-			if len(line) >= 13 {
+			if n == 2 {
 				r.offset = line[9:13]
 			} else {
-				err := errors.New("line is too short to parse extended address record")
+				err := errors.New("extended address record does not contain two bytes")
 				return &r, err
 			}
 		} else {
-- 
2.43.0


From 35de25ca0d24e1ea3315bbcd8d0f7cc7b0c010fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:09 +0000
Subject: [PATCH 05/48] fix: srec19: skip header and count records, report any
 other line that is not an S3 record

Every S0, S5 or S7 line of at least 11 characters and every malformed line
ended the chunk it was in, so the S3 records behind it were missing from the
result without an error, and how many depended on the number of processors.
---
 srec19/hex.go    | 15 ++++++++++++---
 srec19/record.go | 10 +++++++++-
 srec19/tokens.go |  1 +
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..123bf7e 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//recErr collects the lines that could not be parsed, each go routine stops at its first one
+	recErr := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, recErr, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,9 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	if len(recErr) != 0 {
+		return h, <-recErr
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -227,14 +232,18 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, recErr chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if isNonDataRecord(l) {
+			continue
+		}
+		if len(l) >= 11 || strings.HasPrefix(l, beginLineToken) {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				recErr <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..a6c1783 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -3,6 +3,7 @@ package srec19
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"sync"
 )
 
@@ -23,10 +24,17 @@ type record struct {
 	checksum string
 }
 
+// isNonDataRecord reports whether a line is a header, count or start address record (S0, S5 to S9), which carries no data.
+func isNonDataRecord(line string) bool {
+	return len(line) >= 2 && line[0] == beginLineToken[0] && strings.Contains(nonDataRecordTokens, line[1:2])
+}
+
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	r.recordType = line[1:2]
+	if len(line) >= 2 {
+		r.recordType = line[1:2]
+	}
 	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
 		r.byteCount = line[2:4]
 		r.addressField = line[4:12]
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..4d32691 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -3,3 +3,4 @@ package srec19
 //const emptyToken = ""
 const beginLineToken = "S"
 const dataRecordToken = "3"
+const nonDataRecordTokens = "056789"
-- 
2.43.0


From d1f93886c254547c48396e3b1ec4c33ee9d4c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:10 +0000
Subject: [PATCH 06/48] fix: srec19: reject a record whose length does not
 match its byte count

A stray nibble in front of the checksum was skipped, and surplus or missing
data bytes went unnoticed when the checksum happened to match.
---
 srec19/record.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srec19/record.go b/srec19/record.go
index a6c1783..3115b34 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -37,6 +37,13 @@ func parseRecord(line string) (*record, error) {
 	}
 	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
 		r.byteCount = line[2:4]
+		n, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if n < 5 || len(line) != 4+2*int(n) {
+			return &r, errors.New("length of record does not match its byte count")
+		}
 		r.addressField = line[4:12]
 		for i := 12; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
-- 
2.43.0


From de8715228418cc94e15f1dab2f5062ec0f7a15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:13 +0000
Subject: [PATCH 07/48] fix: a2l: tokenize comments, texts and /begin keywords
 that span lines the same for every worker count

The tokenizer hands each goroutine a range of lines. A multi line comment, a
quoted text with line breaks or a /begin whose keyword is on the next line was
torn apart when a range ended inside of it, and a token that touched a comment
was dropped together with it.
---
 a2l/token_generator.go | 51 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..5bcfc40 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -47,6 +47,9 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	//replace escaped quotation marks
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
+	//make sure that nothing spans several lines, as each goroutine only sees its own lines
+	str = joinMultilineTokens(str)
+
 	//Split text file into lines and the lines into words separated by whitespace
 	var locTokens []chan []string
 	tokenList = make([]string, 0, expectedNumberOfTokens)
@@ -85,6 +88,54 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
+// joinMultilineTokens blanks all comments and replaces the line breaks within quoted texts
+// and between /begin or /end and its keyword by spaces, so that every line can be tokenized on its own.
+func joinMultilineTokens(str string) string {
+	text := []byte(str)
+	inText := false
+	inTwoWordedToken := false //true from /begin or /end until the keyword that follows
+	for i := 0; i < len(text); i++ {
+		end := i
+		if text[i] == '"' {
+			inText = !inText
+		} else if !inText && strings.HasPrefix(str[i:], beginLineCommentToken) {
+			end = len(text)
+			if n := strings.Index(str[i:], "\n"); n != -1 {
+				end = i + n
+			}
+		} else if !inText && strings.HasPrefix(str[i:], beginMultilineCommentToken) {
+			end = len(text)
+			if n := strings.Index(str[i+2:], endMultilineCommentToken); n != -1 {
+				end = i + n + 4
+			}
+		} else if !inText && strings.HasPrefix(str[i:], "/begin") {
+			inTwoWordedToken = true
+			i += len("/begin") - 1
+			continue
+		} else if !inText && strings.HasPrefix(str[i:], "/end") {
+			inTwoWordedToken = true
+			i += len("/end") - 1
+			continue
+		} else if text[i] == '\n' {
+			if inText || inTwoWordedToken {
+				text[i] = ' '
+			}
+			continue
+		} else if text[i] == ' ' || text[i] == '\t' || text[i] == '\r' {
+			continue
+		}
+		if end == i {
+			inTwoWordedToken = false
+			continue
+		}
+		for ; i < end; i++ {
+			text[i] = ' '
+		}
+		i--
+	}
+	return string(text)
+}
+
 func tokenBuilderRoutine(lines []string, c chan []string) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
-- 
2.43.0


From 7cb913ec7fa883ec914a58100c65dae75c5f9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:35 +0000
Subject: [PATCH 08/48] fix: a2l: keep a token with a slash instead of dropping
 the rest of the goroutine's lines

---
 a2l/token_generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 5bcfc40..663840b 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -394,8 +394,8 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 		return twoWordedToken, nil
 
 	} else {
-		err = errors.New("no /begin or /end token found")
-		return emptyToken, err
+		//a slash that is part of an ordinary token, e.g. a path or a unit within IF_DATA
+		return t, nil
 	}
 }
 
-- 
2.43.0


From a1f8fdd3323a3e494b4a003345554af4cf184694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:39 +0000
Subject: [PATCH 09/48] fix: a2l: split a module between its objects

The first token of each goroutine's range was never looked at, so an object
whose /begin came to lie there was lost. A range that began inside an object
took nested blocks, e.g. its IF_DATA, for objects of the module.
---
 a2l/module.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..606b8a9 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -3,6 +3,7 @@ package a2l
 import (
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -417,13 +418,11 @@ forLoop:
 		return myModule, err
 	}
 	log.Info().Int("endIndex", endIndex).Msg("MODULE ends at index")
+	splits := splitModule(startIndex, endIndex)
 	for i := 0; i < numProc; i++ {
 		//Starte parser Threads
-		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
-		if i+1 == numProc {
-			maxIndex = endIndex
-		}
+		minIndex := splits[i]
+		maxIndex := splits[i+1]
 		log.Info().Msg(("goroutine " + fmt.Sprint(i) + " starting index: " + fmt.Sprint(minIndex) + " until end at index: " + fmt.Sprint(maxIndex) + " of " + fmt.Sprint(endIndex)))
 		go parseModuleMainLoop(wgParsers, minIndex, maxIndex, cA2ml, cAxisPts, cBlob, cCharacteristic, cCompuMethod,
 			cCompuTab, cCompuVtab, cCompuVtabRange, cFrame, cFunction, cGroup, cIfData, cMeasurement, cModCommon,
@@ -449,6 +448,27 @@ forLoop:
 	return myModule, err
 }
 
+// splitModule divides the tokens between startIndex and endIndex into numProc parts of about the same size
+// without tearing apart an object. Part i consists of the tokens behind index i up to and including index i+1.
+func splitModule(startIndex int, endIndex int) []int {
+	splits := []int{startIndex}
+	depth := 0
+	for i := startIndex + 1; i < endIndex && len(splits) < numProc; i++ {
+		for depth == 0 && len(splits) < numProc && i > startIndex+((endIndex-startIndex)/numProc)*len(splits) {
+			splits = append(splits, i-1)
+		}
+		if strings.HasPrefix(tokenList[i], "/begin ") {
+			depth++
+		} else if strings.HasPrefix(tokenList[i], "/end ") && depth > 0 {
+			depth--
+		}
+	}
+	for len(splits) <= numProc {
+		splits = append(splits, endIndex)
+	}
+	return splits
+}
+
 // collectChannelsMultithreaded uses anonymous function to collect the data sent by the goroutines running the moduleMainLoop.
 // usually the Select Collector is to be prefered as it is mostly faster and always easier on memory
 // as the additional goroutines spun up in collectChannelsMultithreaded seem to block the GC a lot
-- 
2.43.0


From 91025df1b7f92288991fff5f49a956607b7c10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:42 +0000
Subject: [PATCH 10/48] fix: a2l: serialize ParseFromFile, its token list is
 shared by all calls

---
 a2l/a2l.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index d64034c..ad15a6a 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 	"time"
 	"unicode"
 
@@ -23,6 +24,8 @@ var (
 	//numProc = runtime.NumCPU() * 1 has proven to be reliably fast for different cpu models.
 	//factors above 4 will generally lead to severe performance degredation due to channel and locking overhead.
 	numProc = runtime.NumCPU() * 2
+	//parseMutex protects the token list and the other package variables that ParseFromFile relies on.
+	parseMutex sync.Mutex
 )
 
 // A2L is the main struct returned by the a2l package.
@@ -58,6 +61,8 @@ func ParseFromFile(filepath string) (A2L, error) {
 	var tg tokenGenerator
 	var a A2L
 
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
 	startTime := time.Now()
 	//read a2l file from a text file
 	text, err = readFileToString(filepath)
-- 
2.43.0


From e4009f5d978d769f213db78f7a65db89f4126853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:10 +0000
Subject: [PATCH 11/48] fix: GetObjectByIdent must not panic when the a2l has
 no module at ModuleIndex

---
 record_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/record_manager.go b/record_manager.go
index 9385892..fe1ea51 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -47,6 +47,10 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	var buf interface{}
 	var exists bool
 
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		//there is no such module, so there are no objects in it
+		return calibrationObjects
+	}
 	m := cd.A2l.Project.Modules[cd.ModuleIndex]
 
 	buf, exists = m.AxisPts[ident]
-- 
2.43.0


From d6c9e324f8cfaea150000dd3f8645c20c2e2ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:11 +0000
Subject: [PATCH 12/48] fix: serialize ReadCalibration, each call replaces the
 global logger the parsers of the others use

---
 calib_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/calib_data.go b/calib_data.go
index d061669..90ff1de 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -40,6 +40,9 @@ type CalibrationData struct {
 	Hex map[uint32]byte
 }
 
+// readMutex serializes ReadCalibration because each call replaces the global logger that all parsers write to.
+var readMutex sync.Mutex
+
 // ReadCalibration takes filepaths to the a2l file and the hex file,
 // parses them in parallel and returns a CalibrationData struct
 func ReadCalibration(a2lFilePath string, hexFilePath string) (CalibrationData, error) {
@@ -56,6 +59,8 @@ func ReadCalibration(a2lFilePath string, hexFilePath string) (CalibrationData, e
 	//wait group to determine when both parsers have finished
 	wgReaders := new(sync.WaitGroup)
 
+	readMutex.Lock()
+	defer readMutex.Unlock()
 	//initialize logging
 	err = configureLogger()
 	if err != nil {
-- 
2.43.0


From c55372f06072f4b583d5f16220dbadc60578fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:00 +0000
Subject: [PATCH 13/48] fix: ihex32: report an empty record that lost its start
 mark instead of skipping it

---
 ihex32/hex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index e445fbe..be898f2 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -247,7 +247,7 @@ func parseRecordRoutine(c chan []*record, recErr chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 || strings.HasPrefix(l, beginLineToken) {
+		if len(l) >= 10 || strings.HasPrefix(l, beginLineToken) {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
-- 
2.43.0


From 2445235d070df2a573f42f6bf4f9e1863caa9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 14/48] fix: ihex32, srec19: accept a byte whose two digits
 differ in case

---
 ihex32/hex.go | 4 ++++
 srec19/hex.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index be898f2..5fa671a 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -267,6 +267,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the two digits may differ in case
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
diff --git a/srec19/hex.go b/srec19/hex.go
index 123bf7e..d912fdf 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -259,6 +259,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the two digits may differ in case
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
-- 
2.43.0


From b6cd23f1230b180727e0f1bda3662f0cd32ace27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:58 +0000
Subject: [PATCH 15/48] fix: a2l: store each parameter of a FRAME in its own
 field

---
 a2l/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..04bb314 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -51,8 +51,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +63,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +72,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
-- 
2.43.0


From 1d44082487d517ed0685ea4a329227ca99486b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:02 +0000
Subject: [PATCH 16/48] fix: a2l: report a FRAME that is cut off by the end of
 the file

---
 a2l/frame.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index 04bb314..f0a457a 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -42,6 +42,8 @@ forLoop:
 			log.Info().Msg("frame ifData successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				err = errors.New("unexpected end of file")
+				log.Err(err).Msg("frame could not be parsed")
 				break forLoop
 			} else if tok.current() == endFrameToken {
 				break forLoop
-- 
2.43.0


From 6e05c7abc117b86dd088b5ebce70206932aec90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 17/48] fix: a2l: store the parameters behind the conversion of
 a MEASUREMENT or TYPEDEF_MEASUREMENT

---
 a2l/measurement.go          | 1 +
 a2l/type_def_measurement.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..9072b43 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,7 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..2d7bd6a 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,7 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From 23c0373f9205b3e45f1dd9b4b29fca31e7e3e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:09 +0000
Subject: [PATCH 18/48] fix: a2l: store display and type of a UNIT instead of
 overwriting its long identifier

---
 a2l/unit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..cb11507 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,8 +64,8 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
-				log.Info().Msg("unit name successfully parsed")
+				u.longIdentifierSet = true
+				log.Info().Msg("unit longIdentifier successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
 				u.displaySet = true
-- 
2.43.0


From 5df5beebccc49f6d43601984ea4093205ddcad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:12 +0000
Subject: [PATCH 19/48] fix: a2l: read the value behind ADDRESS_TYPE, not the
 keyword itself

---
 a2l/blob.go                | 1 +
 a2l/instance.go            | 1 +
 a2l/structure_component.go | 1 +
 a2l/type_def_blob.go       | 1 +
 a2l/type_def_structure.go  | 1 +
 5 files changed, 5 insertions(+)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From dc3a3201e5b1cca18906d2fa1cebd14eef420e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:16 +0000
Subject: [PATCH 20/48] fix: a2l: read the value behind ENCODING in
 CHARACTERISTIC and TYPEDEF_CHARACTERISTIC

---
 a2l/characteristic.go          | 1 +
 a2l/type_def_characteristic.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/a2l/characteristic.go b/a2l/characteristic.go
index d7a882b..e3e8508 100644
--- a/a2l/characteristic.go
+++ b/a2l/characteristic.go
@@ -134,6 +134,7 @@ forLoop:
 			}
 			log.Info().Msg("characteristic displayIdentifier successfully parsed")
 		case encodingToken:
+			tok.next()
 			c.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("characteristic encoding could not be parsed")
diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..f3a6c0c 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,7 +73,8 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
+			tok.next()
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
-- 
2.43.0


From c90152e85981e1e6512f6b06a1ec2ea562a40453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:20 +0000
Subject: [PATCH 21/48] fix: a2l: store each dimension of MATRIX_DIM in its own
 field

---
 a2l/matrix_dim.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..17fc1c6 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
-- 
2.43.0


From fce959cc478add88d6216e92a1939c6620476c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:24 +0000
Subject: [PATCH 22/48] fix: a2l: ALTERNATE_CURVES, ALTERNATE_WITH_X and
 ALTERNATE_WITH_Y are enum values, not keywords

---
 a2l/tokens.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..64cd0db 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
-- 
2.43.0


From 4da506c5181cfc0b7903e96723c68c3062e541fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:27 +0000
Subject: [PATCH 23/48] fix: a2l: read all five offsets of a MEMORY_SEGMENT

---
 a2l/memory_segment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..d653fd3 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -92,6 +92,14 @@ forLoop:
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
 				for i := 0; i < 5; i++ {
+					if i > 0 {
+						tok.next()
+					}
+					if tok.current() == emptyToken || isKeyword(tok.current()) {
+						err = errors.New("unexpected token " + tok.current())
+						log.Err(err).Msg("memorySegment offset could not be parsed")
+						break forLoop
+					}
 					ms.offset[i] = tok.current()
 				}
 				ms.offsetSet = true
-- 
2.43.0


From 93c12975334bdabb787a94b9cc5325a151fcfc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:31 +0000
Subject: [PATCH 24/48] fix: a2l: accept the address type PLONGLONG

---
 a2l/enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..9f9cdf1 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
-- 
2.43.0


From bae29b32f3cb4821a28cb376649333b90aaf205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:35 +0000
Subject: [PATCH 25/48] fix: a2l: read the datatype of NO_RESCALE_X

---
 a2l/no_rescale_x.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/no_rescale_x.go b/a2l/no_rescale_x.go
index abe4759..c115ea5 100644
--- a/a2l/no_rescale_x.go
+++ b/a2l/no_rescale_x.go
@@ -39,7 +39,6 @@ forLoop:
 			nrx.Position = uint16(buf)
 			nrx.PositionSet = true
 			log.Info().Msg("noRescalex position successfully parsed")
-			break forLoop
 		} else if !nrx.DatatypeSet {
 			nrx.Datatype, err = parseDataTypeEnum(tok)
 			if err != nil {
@@ -48,6 +47,7 @@ forLoop:
 			}
 			nrx.DatatypeSet = true
 			log.Info().Msg("noRescalex datatype successfully parsed")
+			break forLoop
 		}
 	}
 	return nrx, err
-- 
2.43.0


From 5ee3ab62c923d979bfce8a5a51f40f7c3a7dce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 26/48] fix: a2l: read the values behind CONVERSION and
 INPUT_QUANTITY of an OVERWRITE

---
 a2l/overwrite.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..fda651d 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,6 +28,12 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
+			tok.next()
+			if tok.current() == emptyToken || isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			}
 			o.conversion = tok.current()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
@@ -45,6 +51,12 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
+			tok.next()
+			if tok.current() == emptyToken || isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			}
 			o.inputQuantity = tok.current()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
-- 
2.43.0


From be251fc7cd5dc4b83fc2ddb7150f609bd9055c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:26 +0000
Subject: [PATCH 27/48] fix: a2l: accept READ_ONLY and READ_WRITE behind a
 MATRIX_DIM with less than five dimensions

---
 a2l/matrix_dim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 17fc1c6..6586f1d 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -37,7 +37,7 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("matrixDim could not be parsed")
 			break forLoop
-		} else if isKeyword(tok.current()) {
+		} else if isKeyword(tok.current()) || tok.current() == readOnlyToken || tok.current() == readWriteToken {
 			//see above comment
 			log.Info().Str("current token", tok.current()).Msg("matrixDim detected keyword:")
 			tok.previous()
-- 
2.43.0


From aecef220a163634fba4d1c41eb5e9c0a5524f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:28 +0000
Subject: [PATCH 28/48] fix: a2l: VAR_SEPARATOR and FIX_AXIS_PAR are keywords,
 not parameters of what precedes them

---
 a2l/tokens.go         |  3 +++
 a2l/variant_coding.go | 16 ++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 64cd0db..b211b08 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -350,6 +350,7 @@ const valueToken = "VALUE"
 const varMeasurementToken = "VAR_MEASUREMENT"
 const varNamingToken = "VAR_NAMING"
 const varSelectionCharacteristicToken = "VAR_SELECTION_CHARACTERISTIC"
+const varSeparatorToken = "VAR_SEPARATOR"
 const variablesToken = "VARIABLES"
 const versionToken = "VERSION"
 const wordToken = "WORD"
@@ -540,6 +541,7 @@ var keywordMap = map[string]uint8{
 	"EPK":                             0,
 	"ERROR_MASK":                      0,
 	"EXTENDED_LIMITS":                 0,
+	"FIX_AXIS_PAR":                    0,
 	"FIX_AXIS_PAR_DIST":               0,
 	"FIX_NO_AXIS_PTS_4":               0,
 	"FIX_NO_AXIS_PTS_5":               0,
@@ -613,5 +615,6 @@ var keywordMap = map[string]uint8{
 	"VAR_MEASUREMENT":                 0,
 	"VAR_NAMING":                      0,
 	"VAR_SELECTION_CHARACTERISTIC":    0,
+	"VAR_SEPARATOR":                   0,
 	"VERSION":                         0,
 }
diff --git a/a2l/variant_coding.go b/a2l/variant_coding.go
index 49f81e0..9edf5d2 100644
--- a/a2l/variant_coding.go
+++ b/a2l/variant_coding.go
@@ -55,6 +55,14 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("variantCoding varNaming successfully parsed")
+		case varSeparatorToken:
+			vc.varSeparator, err = parseVarSeparator(tok)
+			if err != nil {
+				log.Err(err).Msg("variantCoding varSeparator could not be parsed")
+				break forLoop
+			}
+			vc.varSeparatorSet = true
+			log.Info().Msg("variantCoding varSeparator successfully parsed")
 		default:
 			if tok.current() == emptyToken {
 				err = errors.New("unexpected end of file")
@@ -66,14 +74,6 @@ forLoop:
 				err = errors.New("unexpected token " + tok.current())
 				log.Err(err).Msg("variantCoding could not be parsed")
 				break forLoop
-			} else if !vc.varSeparatorSet {
-				vc.varSeparator, err = parseVarSeparator(tok)
-				if err != nil {
-					log.Err(err).Msg("variantCoding varSeparator could not be parsed")
-					break forLoop
-				}
-				vc.varSeparatorSet = true
-				log.Info().Msg("variantCoding varSeparator successfully parsed")
 			}
 		}
 	}
-- 
2.43.0


From 0127b8d5275955d2a8500838c76bc06b79ba9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 29/48] fix: a2l: report a criterion without value in
 VAR_FORBIDDEN_COMB

---
 a2l/var_forbidden_comb.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/a2l/var_forbidden_comb.go b/a2l/var_forbidden_comb.go
index b1dcae9..5c40664 100644
--- a/a2l/var_forbidden_comb.go
+++ b/a2l/var_forbidden_comb.go
@@ -35,13 +35,16 @@ forLoop:
 			break forLoop
 		} else if !vfc.criterionNameSet || !vfc.criterionValueSet {
 			vfc.criterionName = append(vfc.criterionName, tok.current())
-			if tok.next() != emptyToken {
-				vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is upated in the if condition above
-			} else {
+			if tok.next() == emptyToken {
 				err = errors.New("unexpected end of file")
 				log.Err(err).Msg("varForbiddenComb could not be parsed")
 				break forLoop
+			} else if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("varForbiddenComb could not be parsed")
+				break forLoop
 			}
+			vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is updated in the if condition above
 		}
 	}
 	return vfc, err
-- 
2.43.0


From ad736c9ef4dedf44e3e41b5c89ae5f173e6055e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 30/48] fix: a2l: report a keyword that does not belong to a
 module when it is parsed in parallel

---
 a2l/module.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/a2l/module.go b/a2l/module.go
index 606b8a9..cf2c05f 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -358,7 +358,11 @@ forLoop:
 		if tok.current() == emptyToken {
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("module could not be parsed")
-			break forLoop
+			return myModule, err
+		} else if isKeyword(tok.current()) {
+			err = errors.New("unexpected token " + tok.current())
+			log.Err(err).Msg("module could not be parsed")
+			return myModule, err
 		} else if !myModule.nameSet {
 			myModule.Name = tok.current()
 			myModule.nameSet = true
@@ -1017,6 +1021,11 @@ forLoop:
 				break forLoop
 			} else if tg.current() == endModuleToken {
 				break forLoop
+			} else if isKeyword(tg.current()) {
+				err = errors.New("unexpected token " + tg.current())
+				log.Err(err).Msg("module could not be parsed")
+				cError <- err
+				break forLoop
 			} else if tg.index >= maxIndex {
 				break forLoop
 			}
-- 
2.43.0


From 25162dfeb7275f84dd948934bb562fc3c9e9fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:56 +0000
Subject: [PATCH 31/48] fix: a2l: report an IF_DATA or A2ML that is not closed
 instead of reading on to the end of the next one

---
 a2l/a2ml.go    |  5 +++++
 a2l/if_data.go | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/a2l/a2ml.go b/a2l/a2ml.go
index fe16672..51c3e3e 100644
--- a/a2l/a2ml.go
+++ b/a2l/a2ml.go
@@ -2,6 +2,7 @@ package a2l
 
 import (
 	"errors"
+	"strings"
 
 	"github.com/rs/zerolog/log"
 )
@@ -25,6 +26,10 @@ forLoop:
 		} else if tok.current() == endA2mlToken {
 			a2ml.formatSpecificationSet = true
 			break forLoop
+		} else if strings.HasPrefix(tok.current(), "/end ") {
+			err = errors.New("unexpected token " + tok.current())
+			log.Err(err).Msg("a2ml could not be parsed")
+			break forLoop
 		} else if !a2ml.formatSpecificationSet {
 			a2ml.formatSpecification = a2ml.formatSpecification + spaceToken + tok.current()
 		}
diff --git a/a2l/if_data.go b/a2l/if_data.go
index cf5ccc5..0a1d5f0 100644
--- a/a2l/if_data.go
+++ b/a2l/if_data.go
@@ -2,6 +2,7 @@ package a2l
 
 import (
 	"errors"
+	"strings"
 
 	"github.com/rs/zerolog/log"
 )
@@ -16,6 +17,8 @@ type IfData struct {
 func parseIfData(tok *tokenGenerator) (IfData, error) {
 	id := IfData{}
 	var err error
+	//keywords of the blocks within the IF_DATA that are still open
+	var open []string
 forLoop:
 	for {
 		tok.next()
@@ -23,7 +26,7 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("ifData: could not be parsed")
 			break forLoop
-		} else if tok.current() == endIfDataToken {
+		} else if tok.current() == endIfDataToken && len(open) == 0 {
 			id.dataSet = true
 			log.Info().Msg("ifData data successfully parsed")
 			break forLoop
@@ -32,6 +35,16 @@ forLoop:
 			id.nameSet = true
 			log.Info().Msg("ifData name successfully parsed")
 		} else if !id.dataSet {
+			if strings.HasPrefix(tok.current(), "/begin ") {
+				open = append(open, strings.TrimPrefix(tok.current(), "/begin "))
+			} else if strings.HasPrefix(tok.current(), "/end ") {
+				if len(open) == 0 || open[len(open)-1] != strings.TrimPrefix(tok.current(), "/end ") {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("ifData: could not be parsed")
+					break forLoop
+				}
+				open = open[:len(open)-1]
+			}
 			id.data = append(id.data, tok.current())
 		}
 	}
-- 
2.43.0


From 4bdcf9aa579aa49d60955038172f77212d8a6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:59 +0000
Subject: [PATCH 32/48] fix: a2l: report a file that ends before its PROJECT

---
 a2l/a2l.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index ad15a6a..042a722 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -95,6 +95,7 @@ func ParseFromFile(filepath string) (A2L, error) {
 func parseA2l(tok *tokenGenerator) (A2L, error) {
 	a2l := A2L{}
 	var err error
+	projectSet := false
 forLoop:
 	for {
 		switch tok.current() {
@@ -119,9 +120,15 @@ forLoop:
 				log.Err(err).Msg("a2l project could not be parsed")
 				break forLoop
 			}
+			projectSet = true
 			log.Info().Msg("a2l project successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				if !projectSet {
+					err = errors.New("unexpected end of file")
+					log.Err(err).Msg("a2l could not be parsed")
+					break forLoop
+				}
 				log.Info().Msg("a2l parsed")
 				break forLoop
 			} else if isKeyword(tok.current()) {
-- 
2.43.0


From b6c86826ae6b2d2080b62b5d6f151962b9b701d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 33/48] fix: a2l: a WORD has 16 bits and a LONG 32, as datatype
 and as datasize

---
 a2l/enums.go      | 22 +++++++++++-----------
 record_manager.go | 16 ++++++++--------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index 9f9cdf1..7d21d54 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -39,15 +39,15 @@ const (
 	undefinedDatatype DataTypeEnum = emptyToken
 	//UBYTE is defined as an unsigned 8 bit integer
 	UBYTE DataTypeEnum = ubyteToken
-	//SBYTE is defined as an unsigned 8 bit integer
+	//SBYTE is defined as a signed 8 bit integer
 	SBYTE DataTypeEnum = sbyteToken
-	//UWORD seems to be statically defined as a 32 bit unsigned integer
+	//UWORD is defined as a 16 bit unsigned integer
 	UWORD DataTypeEnum = uwordToken
-	//SWORD seems to be statically defined as a 32 bit signed integer
+	//SWORD is defined as a 16 bit signed integer
 	SWORD DataTypeEnum = swordToken
-	//ULONG is defined as a 64 bit unsigned integer
+	//ULONG is defined as a 32 bit unsigned integer
 	ULONG DataTypeEnum = ulongToken
-	//SLONG is defined as a 64 bit signed integer
+	//SLONG is defined as a 32 bit signed integer
 	SLONG DataTypeEnum = slongToken
 	//AUint64 is defined as a 64 bit unsigned integer
 	AUint64 DataTypeEnum = aUint64Token
@@ -104,10 +104,10 @@ func (dte *DataTypeEnum) GetType() interface{} {
 		var t int8
 		return t
 	case UWORD:
-		var t uint32
+		var t uint16
 		return t
 	case SWORD:
-		var t int32
+		var t int16
 		return t
 	case ULONG:
 		var t uint32
@@ -142,9 +142,9 @@ func (dte *DataTypeEnum) GetDatatypeLength() uint16 {
 	case SBYTE:
 		return 8
 	case UWORD:
-		return 32
+		return 16
 	case SWORD:
-		return 32
+		return 16
 	case ULONG:
 		return 32
 	case SLONG:
@@ -211,9 +211,9 @@ func (dse *DataSizeEnum) GetDataSizeLength() uint16 {
 	case BYTE:
 		return 8
 	case WORD:
-		return 32
+		return 16
 	case LONG:
-		return 64
+		return 32
 	default:
 		return 0
 	}
diff --git a/record_manager.go b/record_manager.go
index fe1ea51..c27841e 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -161,16 +161,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.BigEndian.Uint32(byteSlice)
+			val := binary.BigEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.BigEndian.Uint32(byteSlice))
+			val := int16(binary.BigEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.BigEndian.Uint64(byteSlice)
+			val := binary.BigEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.BigEndian.Uint64(byteSlice))
+			val := int32(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.BigEndian.Uint64(byteSlice)
@@ -199,16 +199,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.LittleEndian.Uint32(byteSlice)
+			val := binary.LittleEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.LittleEndian.Uint32(byteSlice))
+			val := int16(binary.LittleEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.LittleEndian.Uint64(byteSlice)
+			val := binary.LittleEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.LittleEndian.Uint64(byteSlice))
+			val := int32(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.LittleEndian.Uint64(byteSlice)
-- 
2.43.0


From 25b76af1c37827a70f681553ea05ff1b20c255b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:55 +0000
Subject: [PATCH 34/48] fix: choose the hex parser by the file's extension, not
 by any part of its path

---
 calib_data.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index 90ff1de..6f55305 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
@@ -126,8 +127,11 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 	//check whether the hex or the s19 parser needs to be used.
 	//probably improve this by putting the determination logic into a single unified hex parsing package
 
+	//only the file's own extension counts, not what the directories above it or the rest of its name contain
+	fileType := strings.ToLower(filepath.Ext(hexFilePath))
+
 	//intel hex
-	if strings.Contains(strings.ToLower(hexFilePath), ".hex") {
+	if fileType == ".hex" {
 		h, err := ihex32.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
@@ -139,7 +143,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 			log.Info().Msg("parsed hex file")
 		}
 		//Motorola S19
-	} else if strings.Contains(strings.ToLower(hexFilePath), ".s19") {
+	} else if fileType == ".s19" {
 		h, err := srec19.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
-- 
2.43.0


From fc09152e7171cd29584b436d3d76cca56d94fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:24 +0000
Subject: [PATCH 35/48] fix: a FLOAT16_IEEE is the number its bits stand for,
 not the bits themselves

---
 record_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index c27841e..c0cfbf8 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -180,7 +180,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			return float64(val), nil
 		case a2l.Float16Ieee:
 			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice))
-			return float64(val), nil
+			return float64(val.Float32()), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
@@ -218,7 +218,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			return float64(val), nil
 		case a2l.Float16Ieee:
 			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice))
-			return float64(val), nil
+			return float64(val.Float32()), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
-- 
2.43.0


From 5c4e30b2a1269118e8d636e5f4d8aee6cb31e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:24 +0000
Subject: [PATCH 36/48] fix: getBytes no longer panics on making a slice longer
 than its capacity

---
 calib_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index 6f55305..e5fc540 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -490,7 +490,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 // if the address cannot be found an error is returned
 func (cd *CalibrationData) getBytes(address uint32, length uint32) ([]byte, error) {
 	nBytes := length / 8
-	bytes := make([]byte, nBytes, 0)
+	bytes := make([]byte, 0, nBytes)
 	if length%8 != 0 {
 		err := errors.New("unexpected number of bits " + strconv.Itoa(int(length)) + ". Expected a multiple of 8.")
 		log.Error().Err(err).Msg("invalid length")
-- 
2.43.0


From 87420c1e274ff628c6478734aa9e3d0418d53542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 37/48] fix: align an address up to the next multiple of the
 alignment border

---
 calib_data.go | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index e5fc540..ed65a00 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -210,7 +210,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -219,14 +219,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -235,7 +235,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -244,14 +244,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -260,7 +260,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -269,14 +269,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -285,7 +285,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -294,14 +294,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -310,7 +310,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -319,14 +319,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -335,7 +335,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -344,14 +344,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -360,7 +360,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -369,14 +369,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -385,7 +385,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -394,14 +394,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -410,7 +410,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat16Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -419,14 +419,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -435,7 +435,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat32Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -444,14 +444,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -460,7 +460,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat64Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -469,14 +469,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
-- 
2.43.0


From 94df547651d6e8ae9b59587a38f10afd5dcc83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 38/48] fix: read the address of a characteristic as a number,
 whatever its number of digits and the byte order

---
 record_manager.go | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index c0cfbf8..affe65c 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -2,7 +2,6 @@ package calibrationReader
 
 import (
 	"encoding/binary"
-	"encoding/hex"
 	"errors"
 	"fmt"
 	"math"
@@ -104,35 +103,15 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	return calibrationObjects
 }
 
-// hexToByteSlice converts at least a four character hexString to a slice of several bytes. fails if input is too short or not valid hex.
-func hexToByteSlice(hexVal string) ([]byte, error) {
-	decoded, err := hex.DecodeString(hexVal)
-	if err != nil {
-		log.Err(err).Msg("could not decode hex string " + hexVal)
-	}
-	return decoded, err
-}
-
 // convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
-	var val uint32
-	byteSlice, err := hexToByteSlice(strings.ReplaceAll(str, "0x", ""))
+	//an address in the a2l is a number. How many digits it is written with and the byte order of the ecu do not matter.
+	val, err := strconv.ParseUint(strings.ReplaceAll(str, "0x", ""), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
-		return val, err
-	}
-	modCom := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon
-	if modCom.ByteOrder.ByteOrder == a2l.MsbFirstMswLast || modCom.ByteOrder.ByteOrder == a2l.MsbLastMswFirst {
-		err = errors.New("unexpected byte order")
-		log.Err(err).Msg("byte order " + modCom.ByteOrder.ByteOrder.String() + "not implemented")
-		return val, err
-	}
-	if !modCom.ByteOrder.ByteOrderSet || modCom.ByteOrder.ByteOrder == a2l.BigEndian || modCom.ByteOrder.ByteOrder == a2l.MsbFirst {
-		val = binary.BigEndian.Uint32(byteSlice)
-	} else {
-		val = binary.LittleEndian.Uint32(byteSlice)
+		return 0, err
 	}
-	return val, nil
+	return uint32(val), nil
 }
 
 // converts a byteSlice into a a2l.DatatypeEnum datatype.
-- 
2.43.0


From 2648ed40bdfff26f4c8a55a82ad4da3c550b1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 39/48] fix: move the cursor behind the bytes that were read,
 not by the number of their bits

---
 axis_pts.go       | 5 -----
 calib_data.go     | 5 ++++-
 distOp.go         | 5 -----
 fnc_values.go     | 2 --
 identification.go | 1 -
 no_axis_pts.go    | 5 -----
 no_rescale_x.go   | 1 -
 offsetOp.go       | 5 -----
 reserved.go       | 2 +-
 shiftOp.go        | 5 -----
 10 files changed, 5 insertions(+), 31 deletions(-)

diff --git a/axis_pts.go b/axis_pts.go
index e5a19b9..2d3870f 100644
--- a/axis_pts.go
+++ b/axis_pts.go
@@ -45,7 +45,6 @@ func (cv *CharacteristicValues) getAxisPointsX(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
 	}
 	return val, err
 }
@@ -84,7 +83,6 @@ func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength())
 	}
 	return val, err
 }
@@ -123,7 +121,6 @@ func (cv *CharacteristicValues) getAxisPointsZ(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength())
 	}
 	return val, err
 }
@@ -162,7 +159,6 @@ func (cv *CharacteristicValues) getAxisPoints4(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength())
 	}
 	return val, err
 }
@@ -201,7 +197,6 @@ func (cv *CharacteristicValues) getAxisPoints5(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength())
 	}
 	return val, err
 }
diff --git a/calib_data.go b/calib_data.go
index ed65a00..5123de1 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -715,12 +715,15 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	}
 }
 
+// getValue reads the bytes of a value at the next address that is aligned for its datatype and moves curPos behind them.
 func (cd *CalibrationData) getValue(curPos *uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) ([]byte, error) {
-	bytes, err := cd.getBytes(cd.getNextAlignedAddress(*curPos, dte, rl), uint32(dte.GetDatatypeLength()))
+	address := cd.getNextAlignedAddress(*curPos, dte, rl)
+	bytes, err := cd.getBytes(address, uint32(dte.GetDatatypeLength()))
 	if err != nil {
 		log.Err(err).Msg("could not retrieve value as byteSlice")
 		return nil, err
 	}
+	*curPos = address + uint32(len(bytes))
 	return bytes, nil
 }
 
diff --git a/distOp.go b/distOp.go
index b71553a..30bbe69 100644
--- a/distOp.go
+++ b/distOp.go
@@ -24,7 +24,6 @@ func (cd *CalibrationData) getDistOpX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -45,7 +44,6 @@ func (cd *CalibrationData) getDistOpY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -66,7 +64,6 @@ func (cd *CalibrationData) getDistOpZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -87,7 +84,6 @@ func (cd *CalibrationData) getDistOp4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -108,6 +104,5 @@ func (cd *CalibrationData) getDistOp5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
diff --git a/fnc_values.go b/fnc_values.go
index dad7048..42dd6b2 100644
--- a/fnc_values.go
+++ b/fnc_values.go
@@ -23,7 +23,6 @@ func (cv *CharacteristicValues) getFncValues1D(cd *CalibrationData, rl *a2l.Reco
 		log.Err(err).Msg("could not retrieve FncValues values")
 		return 0.0, bufByte, err
 	}
-	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength())
 	return bufFloat, bufByte, err
 }
 
@@ -61,7 +60,6 @@ func (cv *CharacteristicValues) getFncValues2D(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
 	}
 	return val, err
 }
diff --git a/identification.go b/identification.go
index 5e90e66..f1b366c 100644
--- a/identification.go
+++ b/identification.go
@@ -20,6 +20,5 @@ func (cd *CalibrationData) getIdentification(rl *a2l.RecordLayout, curPos *uint3
 		log.Err(err).Msg("could not retrieve identification value")
 		return nil, err
 	}
-	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength())
 	return val, err
 }
diff --git a/no_axis_pts.go b/no_axis_pts.go
index 766b01f..42699fa 100644
--- a/no_axis_pts.go
+++ b/no_axis_pts.go
@@ -24,7 +24,6 @@ func (cd *CalibrationData) getNoAxisPtsX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -45,7 +44,6 @@ func (cd *CalibrationData) getNoAxisPtsY(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -66,7 +64,6 @@ func (cd *CalibrationData) getNoAxisPtsZ(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -87,7 +84,6 @@ func (cd *CalibrationData) getNoAxisPts4(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -108,6 +104,5 @@ func (cd *CalibrationData) getNoAxisPts5(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
diff --git a/no_rescale_x.go b/no_rescale_x.go
index a90ae17..4d11452 100644
--- a/no_rescale_x.go
+++ b/no_rescale_x.go
@@ -24,6 +24,5 @@ func (cd *CalibrationData) getNoRescaleX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noRescaleX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
diff --git a/offsetOp.go b/offsetOp.go
index f5a194d..3bd0b29 100644
--- a/offsetOp.go
+++ b/offsetOp.go
@@ -24,7 +24,6 @@ func (cd *CalibrationData) getOffsetX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -45,7 +44,6 @@ func (cd *CalibrationData) getOffsetY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -66,7 +64,6 @@ func (cd *CalibrationData) getOffsetZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -87,7 +84,6 @@ func (cd *CalibrationData) getOffset4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -108,6 +104,5 @@ func (cd *CalibrationData) getOffset5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
diff --git a/reserved.go b/reserved.go
index 6602641..9411492 100644
--- a/reserved.go
+++ b/reserved.go
@@ -16,6 +16,6 @@ func (cd *CalibrationData) getReserved(rl *a2l.RecordLayout, curPos *uint32) err
 		return err
 	}
 	//Value of reserved is not relevant. Only its datasize and the resulting offset for other datastructres are necessary
-	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength())
+	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength() / 8)
 	return nil
 }
diff --git a/shiftOp.go b/shiftOp.go
index 256ee1b..c5f5e68 100644
--- a/shiftOp.go
+++ b/shiftOp.go
@@ -24,7 +24,6 @@ func (cd *CalibrationData) getShiftOpX(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -45,7 +44,6 @@ func (cd *CalibrationData) getShiftOpY(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -66,7 +64,6 @@ func (cd *CalibrationData) getShiftOpZ(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -87,7 +84,6 @@ func (cd *CalibrationData) getShiftOp4(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
 
@@ -108,6 +104,5 @@ func (cd *CalibrationData) getShiftOp5(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength())
 	return int64(val), err
 }
-- 
2.43.0


From 00c492148598474d1cf876584dafe5b13836eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 40/48] fix: compare with the upper limit of a COMPU_VTAB_RANGE
 row

---
 compu_methods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compu_methods.go b/compu_methods.go
index eebbb44..0bd9e05 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -68,7 +68,7 @@ func calcTabVerbRange(dec float64, cvr *a2l.CompuVTabRange, cd *CalibrationData)
 	if tabRange.NumberValueTriplesSet {
 		var i uint16
 		for i = 0; i < tabRange.NumberValueTriples; i++ {
-			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMin[i] {
+			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMax[i] {
 				return tabRange.OutVal[i], err
 			}
 		}
-- 
2.43.0


From 94e0e2790c170879901907790c6d5b835e95fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 41/48] fix: report that TAB_INTP is not implemented instead of
 returning 0

---
 compu_methods.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compu_methods.go b/compu_methods.go
index 0bd9e05..16c1e7b 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -38,6 +38,8 @@ func convDecToPhy(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float6
 		}
 		return phy, err
 	case a2l.TabIntp:
+		err = errors.New("conversion method 'TabIntp' not implemented for compuMethod " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	case a2l.TabNointp:
 		phy, err := calcTabNoIntp(dec, cm, cd)
-- 
2.43.0


From bebb98dfd305d4e12497a9ac46a50305d01c177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 42/48] fix: invert the rational function of a RAT_FUNC
 correctly, the linear case included

---
 compu_methods.go | 55 +++++++++++++++++-------------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index 16c1e7b..0cf476a 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -120,47 +120,30 @@ func calcTabVerb(dec float64, cv *a2l.CompuVTab, cd *CalibrationData) (string, e
 /*
 calcRatFunc computes the following formula: f(Physical) = Decimal
 y = (axx + bx + c) / (dxx + ex + f)
-inverted fi(Decimal) = Physical
-y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
+inverted fi(Decimal) = Physical, which are the solutions of
+(a - d dec) xx + (b - e dec) x + (c - f dec) = 0
 */
 func calcRatFunc(dec float64, cm *a2l.CompuMethod) (float64, error) {
-	var err error
-	//following formula defines f(Physical) = Decimal
-	//y = (axx + bx + c) / (dxx + ex + f)
-	//inverted fi(Decimal) = Physical
-	//y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
-	firstDivisor := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec))
-	if firstDivisor == 0 {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
-		log.Err(err).Msg("decimal value could not be converted")
-		return 0, err
+	p := cm.Coeffs.A - cm.Coeffs.D*dec
+	q := cm.Coeffs.B - cm.Coeffs.E*dec
+	r := cm.Coeffs.C - cm.Coeffs.F*dec
+	var solutions []float64
+	if p != 0 {
+		discriminant := q*q - 4*p*r
+		if discriminant >= 0 {
+			solutions = append(solutions, (-q+math.Sqrt(discriminant))/(2*p), (-q-math.Sqrt(discriminant))/(2*p))
+		}
+	} else if q != 0 {
+		solutions = append(solutions, -r/q)
 	}
-	secondDivisorPositive := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) +
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-	secondDivisorNegative := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) -
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-
-	if secondDivisorPositive != 0 && secondDivisorNegative != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		testVal := (cm.Coeffs.A*plusVal*plusVal + cm.Coeffs.B*plusVal + cm.Coeffs.C) / (cm.Coeffs.D*plusVal*plusVal + cm.Coeffs.E*plusVal + cm.Coeffs.F)
-		if testVal == dec {
-			return plusVal, err
-		} else {
-			return minusVal, err
+	for _, phy := range solutions {
+		if cm.Coeffs.D*phy*phy+cm.Coeffs.E*phy+cm.Coeffs.F != 0 {
+			return phy, nil
 		}
-	} else if secondDivisorPositive != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		return plusVal, err
-	} else if secondDivisorNegative != 0 {
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		return minusVal, err
-	} else {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
-		log.Err(err).Msg("decimal value could not be converted")
-		return 0, err
 	}
-
+	err := errors.New("rationality function cannot be inverted for compuMethod: " + cm.Name)
+	log.Err(err).Msg("decimal value could not be converted")
+	return 0, err
 }
 
 func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float64, error) {
-- 
2.43.0


From 8890d89564026b1c2f98dbf5da05136afe290b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:26 +0000
Subject: [PATCH 43/48] fix: return the value of a system constant instead of
 an empty text

---
 record_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index affe65c..8219997 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -30,13 +30,12 @@ func (cd *CalibrationData) getSystemConstantValue(ident string) (string, error)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	var val string
 	if !sc.ValueSet {
 		err = errors.New("no value defined in system constant " + sc.Name)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	return val, nil
+	return sc.Value, nil
 }
 
 // GetObjectByIdent returns an object with a given identifier that is defined within the a2l
-- 
2.43.0


From 949ff9bc07046348249f051ac173ae782992d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:27 +0000
Subject: [PATCH 44/48] fix: read the fields of a characteristic in the order
 of their positions and not without a record layout or an address

---
 calib_data.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index 5123de1..4d2dbeb 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -13,6 +13,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -513,15 +514,24 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	rl, err := cd.getRecordLayout(cv.characteristic)
 	if err != nil {
 		log.Err(err).Msg("record layout for identifier '" + cv.characteristic.Deposit + "' not found")
+		return
 	}
 
 	//determine relative positions of each field of the record layout struct
 	relPos, err := rl.GetRecordLayoutRelativePositions()
 	if err != nil {
 		log.Err(err).Msg("could not retrieve positions for record layout '" + cv.characteristic.Deposit + "'")
+		return
 	}
 	rl.RelativePositions = relPos
 
+	//the fields lie in memory in the order of their positions, while a map is iterated in any order
+	positions := make([]int, 0, len(relPos))
+	for position := range relPos {
+		positions = append(positions, int(position))
+	}
+	sort.Ints(positions)
+
 	//curPos tracks the current position within the deposit structure as an uint32 address
 	//with each field that gets parsed from the hex file curPos is incremented by the length of the datastructure.
 	var curPos uint32
@@ -529,9 +539,11 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	curPos, err = cd.convertStringToUint32Address(cv.characteristic.Address)
 	if err != nil {
 		log.Err(err).Msg("could not convert address of characteristic '" + cv.characteristic.Name + "'")
+		return
 	}
 
-	for _, field := range cv.recordLayout.RelativePositions {
+	for _, position := range positions {
+		field := relPos[uint16(position)]
 		switch field {
 		case "AxisPtsX":
 			cv.AxisXValues, err = cv.getAxisPointsX(cd, rl, &curPos)
-- 
2.43.0


From 265e77a5066a296fd91fd51b5bcfb48da2c6ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:12 +0000
Subject: [PATCH 45/48] fix: a keyword in place of a verbal table's text is an
 error

---
 a2l/compu_vtab.go       | 5 +++++
 a2l/compu_vtab_range.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/a2l/compu_vtab.go b/a2l/compu_vtab.go
index 4bb0a5a..fd27d66 100644
--- a/a2l/compu_vtab.go
+++ b/a2l/compu_vtab.go
@@ -86,6 +86,11 @@ forLoop:
 					log.Info().Msg("compuVtab inVal successfully parsed")
 				}
 				tok.next()
+				if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtab outVal could not be parsed")
+					break forLoop
+				}
 				cvt.OutVal = append(cvt.OutVal, tok.current())
 				log.Info().Msg("compuVtab outVal successfully parsed")
 				if uint16(len(cvt.OutVal)) == cvt.NumberValuePairs {
diff --git a/a2l/compu_vtab_range.go b/a2l/compu_vtab_range.go
index 9996d86..60d5d8e 100644
--- a/a2l/compu_vtab_range.go
+++ b/a2l/compu_vtab_range.go
@@ -91,6 +91,11 @@ forLoop:
 					log.Info().Msg("compuVtabRange inValMax successfully parsed")
 				}
 				tok.next()
+				if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtabRange outVal could not be parsed")
+					break forLoop
+				}
 				cvr.OutVal = append(cvr.OutVal, tok.current())
 				log.Info().Msg("compuVtabRange outVal successfully parsed")
 				if uint16(len(cvr.OutVal)) == cvr.NumberValueTriples {
-- 
2.43.0


From e07882090fc8c52722b9faac804b441ef1614e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 46/48] fix: a2l: a token that only contains /begin or /end is
 an ordinary token

---
 a2l/token_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 663840b..861c3fd 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -384,7 +384,7 @@ func isKeyword(str string) bool {
 func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]string) (string, error) {
 	var err error
 	t := str[*currentOuterIndex][*currentInnerIndex]
-	if strings.Contains(t, "/begin") || strings.Contains(t, "/end") {
+	if t == "/begin" || t == "/end" {
 		twoWordedToken := t
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
-- 
2.43.0


From 1b3bf81f7a21ea520ed748aaa4a3754f4c9ce2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:10 +0000
Subject: [PATCH 47/48] fix: a2l: a backslash in front of */ does not hide the
 end of the comment

---
 a2l/a2l.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index 042a722..65935da 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -153,8 +153,8 @@ func readFileToString(filepath string) (string, error) {
 }
 
 func cleanBytesString(bs []byte) string {
-	//remove escaped characters
-	re := regexp.MustCompile(`\\.`)
+	//remove escaped characters, but not the end of a comment
+	re := regexp.MustCompile(`\\(\*/)|\\.`)
 	escapedBytesString := re.ReplaceAll(bs, []byte("$1"))
 	//convert byte array to string
 	str := string(escapedBytesString)
-- 
2.43.0


From d38ce5176b029d3f264c90d8516831b3bdfaaaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:49 +0000
Subject: [PATCH 48/48] fix: an address without 0x in front, or with 0x inside,
 is an error instead of another address

---
 record_manager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/record_manager.go b/record_manager.go
index 8219997..a425f9e 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -105,7 +105,12 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 // convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
 	//an address in the a2l is a number. How many digits it is written with and the byte order of the ecu do not matter.
-	val, err := strconv.ParseUint(strings.ReplaceAll(str, "0x", ""), 16, 32)
+	if !strings.HasPrefix(str, "0x") {
+		err := errors.New("address '" + str + "' is not hexadecimal")
+		log.Err(err).Msg("string '" + str + "' could not be parsed")
+		return 0, err
+	}
+	val, err := strconv.ParseUint(strings.TrimPrefix(str, "0x"), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
 		return 0, err
-- 
2.43.0


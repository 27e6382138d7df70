From f7e01ac1638095708e995929460aa96aa4bc10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 01/57] fix: read the header description relative to the
 header's offset

---
 dictionary/dicheader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index cb6e4f6..e2fcc15 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -30,7 +30,7 @@ func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
 	offset, createTime := bufferToInt64(input, offset)
 
 	i := offset
-	for ; i < HeaderStorageSize; i++ {
+	for ; i < offset+DescriptionSize; i++ {
 		if input[i] == 0 {
 			break
 		}
-- 
2.43.0


From 73d13e1b32b664ea53c548c041bedfcc42856fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 02/57] fix: refuse a file too short for a dictionary header
 instead of panicking

---
 dictionary/binarydict.go | 2 ++
 dictionary/dicheader.go  | 4 ++++
 dictionary/dicprinter.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index f0c0953..25d130b 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -34,6 +34,8 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
 	if header == nil {
+		_ = mmap.Munmap(fmap)
+		_ = fd.Close()
 		return nil, fmt.Errorf("invalid header: %s", filename)
 	}
 
diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index e2fcc15..582e532 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -25,7 +25,11 @@ func NewDictionaryHeader(version uint64, createTime int64, description string) *
 	}
 }
 
+// ParseDictionaryHeader returns nil if input is too short to hold a header.
 func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
+	if len(input)-offset < HeaderStorageSize {
+		return nil
+	}
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 5714e62..6013f06 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -112,6 +112,9 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	defer mmap.Munmap(bytebuffer)
 
 	dh := ParseDictionaryHeader(bytebuffer, 0)
+	if dh == nil {
+		return fmt.Errorf("invalid header: %s", dictfile)
+	}
 
 	fmt.Fprintf(output, "filename: %s\n", dictfile)
 
-- 
2.43.0


From 1bdf4ddc0b6bd9d373f34c146fc6306ee600161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 03/57] fix: accept the first decimal point of a numeral and
 refuse a second one

---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 3e0288a..d25b5e6 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -202,7 +202,7 @@ func (p *numericParser) append(c rune) bool {
 			p.errorState = errComma
 			return false
 
-		} else if p.tmp.setPoint() {
+		} else if !p.tmp.setPoint() {
 			p.errorState = errPoint
 			return false
 		}
-- 
2.43.0


From 990e584dcf5c84a15f7162ad6d1636dd31d6769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 04/57] fix: add numerals without expanding the addend first

---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index d25b5e6..f80a862 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -76,13 +76,13 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		return true
 	}
 
+	n.normalizeScale()
 	l := t.intLength()
 	if n.scale >= l {
 		n.fillZero(n.scale - l)
 		if t.point >= 0 {
 			n.point = len(n.significand) + t.point
 		}
-		_ = t.String()
 		n.significand = append(n.significand, t.significand...)
 		n.scale = t.scale
 		return true
-- 
2.43.0


From eae5f19351c0977a699cca0a3980bedcc8341ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 05/57] fix: refuse a comma after the decimal point of a
 numeral

---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index f80a862..317554e 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -209,7 +209,7 @@ func (p *numericParser) append(c rune) bool {
 		p.hasComma = false
 		return true
 	} else if c == ',' {
-		if !p.checkComma() {
+		if p.tmp.point >= 0 || !p.checkComma() {
 			p.errorState = errComma
 			return false
 		}
-- 
2.43.0


From 15a3b98098be75e360f61e17619cb74553b656c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 06/57] fix: refuse a unit after a misplaced comma or hanging
 point

---
 numericparser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/numericparser.go b/numericparser.go
index 317554e..e10216a 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -222,6 +222,16 @@ func (p *numericParser) append(c rune) bool {
 	if !ok {
 		return false
 	}
+	if n < 0 {
+		// a number before a unit must be complete
+		if p.hasHangingPoint {
+			p.errorState = errPoint
+			return false
+		} else if p.hasComma && p.digitLength != 3 {
+			p.errorState = errComma
+			return false
+		}
+	}
 	if n < 0 && n >= -3 { // isSmallUnit
 		p.tmp.shiftScale(-n)
 		if !p.subtotal.add(p.tmp) {
-- 
2.43.0


From 2b8381aa2b86647f1006591c852e14f3c44a6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 07/57] fix: do not retry numeral joining forever on a word
 containing a comma or point

---
 joinnumericplugin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 722dff2..ab54d5c 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -93,10 +93,10 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 			for _, c := range s {
 				if !parser.append(c) {
 					if beginIndex >= 0 {
-						if parser.errorState == errComma {
+						if parser.errorState == errComma && commaAsDigit {
 							commaAsDigit = false
 							i = beginIndex - 1
-						} else if parser.errorState == errPoint {
+						} else if parser.errorState == errPoint && periodAsDigit {
 							periodAsDigit = false
 							i = beginIndex - 1
 						}
-- 
2.43.0


From eb0c720a88b094626b085e2e1316eb69ce403688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 08/57] fix: report errors of numeral joining at the end of the
 path

---
 joinnumericplugin.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index ab54d5c..15d212e 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -138,13 +138,19 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 
 	if beginIndex >= 0 {
 		if parser.done() {
-			p.concatNodes(path, beginIndex, len(*path), lattice, parser)
+			err := p.concatNodes(path, beginIndex, len(*path), lattice, parser)
+			if err != nil {
+				return fmt.Errorf("JoinNumericPlugin: %s", err)
+			}
 		} else {
 			wi := (*path)[len(*path)-1].GetWordInfo()
 			ss := wi.NormalizedForm
 			if (parser.errorState == errComma && ss == ",") ||
 				(parser.errorState == errPoint && ss == ".") {
-				p.concatNodes(path, beginIndex, len(*path)-1, lattice, parser)
+				err := p.concatNodes(path, beginIndex, len(*path)-1, lattice, parser)
+				if err != nil {
+					return fmt.Errorf("JoinNumericPlugin: %s", err)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 0eb3922b55662dfdc947995f1f82d3bb33b41578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 09/57] fix: do not join an ill-formed numeral before a
 trailing comma or point

---
 numericparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numericparser.go b/numericparser.go
index e10216a..2d2e493 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -265,7 +265,9 @@ func (p *numericParser) append(c rune) bool {
 }
 
 func (p *numericParser) done() bool {
-	ret := p.subtotal.add(p.tmp) && p.total.add(p.subtotal)
+	if !p.subtotal.add(p.tmp) || !p.total.add(p.subtotal) {
+		return false
+	}
 	if p.hasHangingPoint {
 		p.errorState = errPoint
 		return false
@@ -273,7 +275,7 @@ func (p *numericParser) done() bool {
 		p.errorState = errComma
 		return false
 	}
-	return ret
+	return true
 }
 
 func (p *numericParser) getNormalized() string {
-- 
2.43.0


From 3ed1038a24228963762aa9453da256908b28fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 10/57] fix: account for the length of the prolonged sound mark
 replacement

---
 prolongedsoundmarkinputtextplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prolongedsoundmarkinputtextplugin.go b/prolongedsoundmarkinputtextplugin.go
index cf1ccfb..c785a40 100644
--- a/prolongedsoundmarkinputtextplugin.go
+++ b/prolongedsoundmarkinputtextplugin.go
@@ -68,7 +68,7 @@ func (p *ProlongedSoundMarkInputTextPlugin) Rewrite(builder *InputTextBuilder) e
 		} else if isProlongedSoundMark && !ok {
 			if (i - markStartIndex) > 1 {
 				builder.Replace(markStartIndex-offset, i-offset, p.replacementSymbol)
-				offset += i - markStartIndex - 1
+				offset += i - markStartIndex - len(p.replacementSymbol)
 			}
 			isProlongedSoundMark = false
 		}
-- 
2.43.0


From e78b907f4c55d69775972b5da7b7e4cc7e239f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:49 +0000
Subject: [PATCH 11/57] fix: do not reuse lattice nodes left by a failed call

---
 tokenizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenizer.go b/tokenizer.go
index 0d194a5..7787523 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -97,6 +97,7 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 
 func (t *JapaneseTokenizer) buildLattice(input *InputText) error {
 	bytea := input.Bytea
+	t.lattice.clear() // a failed call may have left nodes
 	t.lattice.resize(len(bytea))
 	for i, _ := range bytea {
 		if !input.CanBow(i) || !t.lattice.HasPreviousNode(i) {
-- 
2.43.0


From 63e40bbe36af2d54b6d2508f707469d613d525e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 12/57] fix: do not offer an unknown word again for lengths
 past the end of the text

---
 mecaboovproviderplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 79cb83f..ff49826 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -110,7 +110,7 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 			if cinfo.isInvoke || !hasOtherWords {
 				for i := 1; i <= cinfo.length; i++ {
 					sublength := inputText.GetCodePointsOffsetLength(offset, i)
-					if sublength > llength {
+					if sublength > llength || inputText.CodePointCount(offset, offset+sublength) < i {
 						break
 					}
 					s := inputText.GetSubstring(offset, offset+sublength)
-- 
2.43.0


From 06639f11e29dd4d41f5d254e364cdb84019104a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:27 +0000
Subject: [PATCH 13/57] fix: do not offer unknown words longer than a headword
 length can tell

---
 mecaboovproviderplugin.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index ff49826..0a14c7b 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -3,6 +3,7 @@ package gosudachi
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -101,16 +102,18 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 				continue
 			}
 			if cinfo.isGroup && (cinfo.isInvoke || !hasOtherWords) {
-				s := inputText.GetSubstring(offset, offset+length)
-				for _, oov := range *oovs {
-					nodes = append(nodes, p.getOovNode(s, oov, length))
+				if length <= math.MaxInt16 { // HeadwordLength can hold it
+					s := inputText.GetSubstring(offset, offset+length)
+					for _, oov := range *oovs {
+						nodes = append(nodes, p.getOovNode(s, oov, length))
+					}
 				}
 				llength -= 1
 			}
 			if cinfo.isInvoke || !hasOtherWords {
 				for i := 1; i <= cinfo.length; i++ {
 					sublength := inputText.GetCodePointsOffsetLength(offset, i)
-					if sublength > llength || inputText.CodePointCount(offset, offset+sublength) < i {
+					if sublength > llength || sublength > math.MaxInt16 || inputText.CodePointCount(offset, offset+sublength) < i {
 						break
 					}
 					s := inputText.GetSubstring(offset, offset+sublength)
-- 
2.43.0


From 663dc234c4e8aad2538a47717adf52bd66b7f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:01 +0000
Subject: [PATCH 14/57] fix: read and count the intersection flags of the DAWG
 correctly

---
 dartsclone/bitvector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dartsclone/bitvector.go b/dartsclone/bitvector.go
index 8159da4..e70d50c 100644
--- a/dartsclone/bitvector.go
+++ b/dartsclone/bitvector.go
@@ -16,14 +16,14 @@ func newBitVector() *bitVector {
 }
 
 func (v *bitVector) get(id int) bool {
-	return v.units[id/unitLength]>>((uint(id)%unitLength)&1) == 1
+	return (v.units[id/unitLength]>>(uint(id)%unitLength))&1 == 1
 }
 
 func (v *bitVector) rank(id int) int {
 	const mask = uint32(0xffffffff)
 	unitId := id / unitLength
 	offset := uint(id % unitLength)
-	return v.ranks[unitId] + popCount(v.units[unitId] & ^(mask<<offset))
+	return v.ranks[unitId] + popCount(v.units[unitId]&(mask>>(unitLength-offset-1)))
 }
 
 func (v *bitVector) set(id int, bit bool) {
-- 
2.43.0


From f5cab1153eb92dd1acc81bcddf0958928907bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 15/57] fix: refuse a key that is a prefix of the previous key
 instead of panicking

---
 dartsclone/dawgbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 81a9d0b..2940fce 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -168,7 +168,7 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		}
 
 		var keyLabel byte
-		if keyPos <= keylen {
+		if keyPos < keylen {
 			keyLabel = key[keyPos]
 		}
 		if keyPos < keylen && keyLabel == 0 {
-- 
2.43.0


From 1361807ad6d7010d70e076849010d4b94b4b0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:03 +0000
Subject: [PATCH 16/57] fix: refuse a NUL in the rest of a key, too

---
 dartsclone/dawgbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 2940fce..055a5bb 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -194,6 +194,9 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		var keyLabel byte
 		if keyPos < keylen {
 			keyLabel = key[keyPos]
+			if keyLabel == 0 {
+				return fmt.Errorf("invalid null character")
+			}
 		}
 		childId := b.appendNode()
 
-- 
2.43.0


From b9ef74ee72a32c0b2e79f517d6d3e31523b51797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 17/57] fix: refuse an empty key when building without values

---
 dartsclone/dabuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dartsclone/dabuilder.go b/dartsclone/dabuilder.go
index b9fa608..d66146e 100644
--- a/dartsclone/dabuilder.go
+++ b/dartsclone/dabuilder.go
@@ -326,7 +326,9 @@ func (dab *doubleArrayBuilder) arrangeFromKeySet(ks *keySet, begin int, end int,
 	for i := begin; i < end; i++ {
 		label := ks.getKeyByte(i, depth)
 		if label == 0 {
-			if depth < len(ks.getKey(i)) {
+			if depth == 0 && len(ks.getKey(i)) == 0 {
+				return 0, fmt.Errorf("zero-length key")
+			} else if depth < len(ks.getKey(i)) {
 				return 0, fmt.Errorf("invalid null character")
 			} else if ks.getValue(i) < 0 {
 				return 0, fmt.Errorf("negative value")
-- 
2.43.0


From 31e8511614fd6c34114039e7c5f2843687ebc9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 18/57] fix: continue a trie traversal at the given node

---
 dartsclone/da.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/da.go b/dartsclone/da.go
index 9e7ca7f..0cb35af 100644
--- a/dartsclone/da.go
+++ b/dartsclone/da.go
@@ -233,7 +233,7 @@ type TraverseResult struct {
 func (da *DoubleArray) Traverse(key []byte, offset int, length int, nodePosition int) *TraverseResult {
 	nodePos := uint32(nodePosition)
 	id := nodePos
-	u := daunit(da.array[0])
+	u := daunit(da.array[int(nodePos)])
 
 	for i := offset; i < length; i++ {
 		k := uint32(key[i])
-- 
2.43.0


From ea410efbe7dce55b08bb1b535dfd5bfc81abbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 19/57] fix: do not recurse through the dictionary forms of
 dictionary forms

---
 dictionary/dalexicon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 88bb645..614f214 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -129,8 +129,7 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	dictionaryForm := surface
 	if dictionaryFormWordId >= 0 && dictionaryFormWordId != wordId {
-		wi := l.getWordInfo(dictionaryFormWordId)
-		dictionaryForm = wi.Surface
+		_, dictionaryForm = l.bufferToStringF(l.bytebuffer, l.wordIdToOffset(dictionaryFormWordId))
 	}
 
 	return &WordInfo{
-- 
2.43.0


From 375d71b5f3f2fe3c96526a1da03f5bbdbfe71208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 20/57] fix: refuse to write a string longer than its length
 field can tell

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f92ceb9..c1b5c76 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -424,6 +424,9 @@ func writeStringLength(buffer *bytes.Buffer, length int16) error {
 }
 
 func writeString(buffer *bytes.Buffer, s string) error {
+	if utf8CountInString(s) {
+		return fmt.Errorf("string is too long: %d bytes", len(s))
+	}
 	err := writeStringLength(buffer, int16(len(s)))
 	if err != nil {
 		return err
@@ -438,6 +441,9 @@ func writeString(buffer *bytes.Buffer, s string) error {
 func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 	// java compatible
 	javainternal := utf16.Encode([]rune(s))
+	if len(javainternal) > StringUtf16MaxLength {
+		return fmt.Errorf("string is too long: %d UTF-16 code units", len(javainternal))
+	}
 
 	err := writeStringLength(buffer, int16(len(javainternal)))
 	if err != nil {
-- 
2.43.0


From cca8d8a997adaa8cb62429668fbe633e606014e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 21/57] fix: refuse to write a list longer than its length
 field can tell

---
 dictionary/dicbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index c1b5c76..d6cf8cb 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -459,6 +460,9 @@ func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 }
 
 func writeIntArray(buffer *bytes.Buffer, a []int32) error {
+	if len(a) > math.MaxUint8 {
+		return fmt.Errorf("too many units: %d", len(a))
+	}
 	err := buffer.WriteByte(byte(len(a)))
 	if err != nil {
 		return err
-- 
2.43.0


From 7badf162ad5f2f230a749e0d0aec740af60a0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 22/57] fix: look up the parts of speech of a user dictionary
 in the system dictionary name by name

---
 dictionary/dicbuilder.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index d6cf8cb..57818d5 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -78,18 +78,14 @@ type PosTableUser struct {
 	baseStore PosIdStore
 }
 
-func (pt *PosTableUser) getId(s string) int16 {
-	posId := pt.baseStore.GetPosId(s)
+func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
+	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.getId(s) + int16(pt.baseStore.GetPartOfSpeechSize())
+		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
 
-func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-- 
2.43.0


From 98b6e1b6b4d2410f75e9d04195f58fd38b8a38c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 23/57] fix: keep commas inside part of speech names

---
 dictionary/dicbuilder.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 57818d5..0a4f818 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -44,23 +44,25 @@ type PosIdStore interface {
 }
 
 type PosTable struct {
-	table    []string
-	contains map[string]int16
+	table    [][posDepth]string
+	contains map[[posDepth]string]int16
 }
 
-func (pt *PosTable) getId(s string) int16 {
-	id, ok := pt.contains[s]
+func (pt *PosTable) getId(pos [posDepth]string) int16 {
+	id, ok := pt.contains[pos]
 	if ok {
 		return id
 	}
 	id = int16(len(pt.table))
-	pt.contains[s] = id
-	pt.table = append(pt.table, s)
+	pt.contains[pos] = id
+	pt.table = append(pt.table, pos)
 	return id
 }
 
 func (pt *PosTable) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
+	var pos [posDepth]string
+	copy(pos[:], posstrings)
+	return pt.getId(pos)
 }
 
 func (pt *PosTable) GetPartOfSpeechSize() int {
@@ -69,7 +71,7 @@ func (pt *PosTable) GetPartOfSpeechSize() int {
 
 func NewPosTable() *PosTable {
 	return &PosTable{
-		contains: map[string]int16{},
+		contains: map[[posDepth]string]int16{},
 	}
 }
 
@@ -89,7 +91,7 @@ func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-			contains: map[string]int16{},
+			contains: map[[posDepth]string]int16{},
 		},
 		baseStore: base,
 	}
@@ -636,8 +638,7 @@ func (dicbuilder *DictionaryBuilder) convertPOSTable(postable *PosTable) error {
 	}
 
 	for _, pos := range postable.table {
-		ts := strings.Split(pos, ",")
-		for _, t := range ts {
+		for _, t := range pos {
 			err := dicbuilder.writeString(t)
 			if err != nil {
 				return err
-- 
2.43.0


From ba294969efa0a3ad9000c00caee873f2c9d12b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 24/57] fix: refuse more parts of speech than an id can tell

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 0a4f818..b471e39 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -348,6 +348,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 
 		// part of speech
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
+		if posId < 0 {
+			return fmt.Errorf("too many parts of speech at line %d", r.numLine)
+		}
 
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
 			return fmt.Errorf("too many units: columns 15 at line %d", r.numLine)
-- 
2.43.0


From bc2bf37c5f90fdafad3601719d58ac532e751173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 25/57] fix: refuse a headword whose length in bytes does not
 fit its field

---
 dictionary/dicbuilder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index b471e39..d63e364 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -309,7 +309,8 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 			return fmt.Errorf("invalid format at line: columns length must be %d: at line %d", NumberOfColumns, r.numLine)
 		}
 
-		if dicbuilder.stringLen(cols[0]) {
+		// HeadwordLength is counted in bytes
+		if dicbuilder.stringLen(cols[0]) || len(cols[0]) > math.MaxInt16 {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
 		if dicbuilder.stringLen(cols[4]) {
-- 
2.43.0


From 5a94c681dbc4b99f26f5dca82c71510a20943638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 26/57] fix: refuse more words of one headword than the word id
 table can hold

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index d63e364..3456dc7 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -673,6 +673,9 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 		wordIds, _ := v.([]int32)
 		keys[i] = bkey
 		values[i] = position
+		if len(wordIds) > math.MaxUint8 {
+			return fmt.Errorf("too many words for a headword: %s", bkey)
+		}
 		err := wordIdTable.WriteByte(byte(len(wordIds)))
 		if err != nil {
 			return err
-- 
2.43.0


From 190e07614ddc1bef4fd85865dcb6f461f7b43eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 27/57] fix: refuse a dictionary form id of no word

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 3456dc7..e201224 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -798,6 +798,9 @@ func (dicbuilder *DictionaryBuilder) writeWordInfo(writer io.WriteSeeker, store
 	position := base
 	for _, we := range dicbuilder.wordEntries {
 		wi := we.WordInfo
+		if wi.DictionaryFormWordId < -1 || int(wi.DictionaryFormWordId) >= len(dicbuilder.wordEntries) {
+			return fmt.Errorf("invalid dictionary form word ID: %d", wi.DictionaryFormWordId)
+		}
 		err = binary.Write(offsets, binary.LittleEndian, uint32(position))
 		if err != nil {
 			return err
-- 
2.43.0


From 9f56056f803fe78502ba28b5a5c071e6fbaf35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 28/57] fix: refuse a negative matrix size instead of panicking

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index e201224..74401bc 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -525,6 +525,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 	}
+	if leftSize < 0 || rightSize < 0 {
+		return fmt.Errorf("negative matrix size at line %d", r.NumLine)
+	}
 	err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(leftSize))
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
-- 
2.43.0


From 2d29df5313c2d124877cdd30d8ddb97d81d7d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 29/57] fix: refuse a matrix row outside the declared size

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 74401bc..58c630e 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -571,6 +571,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 		}
+		if left < 0 || left >= leftSize || right < 0 || right >= rightSize {
+			return fmt.Errorf("id out of the matrix at line %d", r.NumLine)
+		}
 		cost, err := strconv.ParseInt(cols[2], 10, 16)
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
-- 
2.43.0


From f26f77e5e1f94db75ee4d610ee3d238538598cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 30/57] fix: accept code points of any number of hex digits and
 refuse negative ones

---
 dictionary/charcategory.go | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 3714640..5b101ee 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -1,9 +1,9 @@
 package dictionary
 
 import (
-	"encoding/hex"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 	"unicode/utf8"
 
@@ -172,25 +172,9 @@ func decodeHexStrToInt32(s string) (int32, error) {
 	if len(s) < 3 {
 		return 0, fmt.Errorf("invalid hex string: too short")
 	}
-	src := []byte(s[2:])
-	dst := make([]byte, hex.DecodedLen(len(src)))
-	n, err := hex.Decode(dst, src)
+	v, err := strconv.ParseUint(s[2:], 16, 31)
 	if err != nil {
 		return 0, err
 	}
-	if n > 4 {
-		return 0, fmt.Errorf("invalid hex string: too long")
-	}
-	var ret int32
-	switch n {
-	case 4:
-		ret = int32(dst[0])*16777216 + int32(dst[1])*65536 + int32(dst[2])*256 + int32(dst[3])
-	case 3:
-		ret = int32(dst[0])*65536 + int32(dst[1])*256 + int32(dst[2])
-	case 2:
-		ret = int32(dst[0])*256 + int32(dst[1])
-	case 1:
-		ret = int32(dst[0])
-	}
-	return ret, nil
+	return int32(v), nil
 }
-- 
2.43.0


From f7768f329a1c2e1de3a191c0539993232fbd6bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 31/57] fix: refuse a code point range end without 0x

---
 dictionary/charcategory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 5b101ee..9c52f20 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -141,6 +141,9 @@ func (cc *CharacterCategory) ReadCharacterDefinition(charDefReader io.Reader) er
 		}
 		catrange.low = low
 		if len(rs) > 1 {
+			if !strings.HasPrefix(rs[1], "0x") {
+				return fmt.Errorf("invalid format at line %d: %s", r.NumLine, rs[1])
+			}
 			high, err := decodeHexStrToInt32(rs[1])
 			if err != nil {
 				return fmt.Errorf("invalid format at line %d: %s", r.NumLine, err)
-- 
2.43.0


From 96ce801562c27e9ca0aed848d7df648bd4a8ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 32/57] fix: refuse a code point range with more than two
 bounds

---
 dictionary/charcategory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 9c52f20..bf8f059 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -135,6 +135,9 @@ func (cc *CharacterCategory) ReadCharacterDefinition(charDefReader io.Reader) er
 
 		catrange := new(categoryRange)
 		rs := strings.Split(cols[0], "..")
+		if len(rs) > 2 {
+			return fmt.Errorf("invalid format at line %d: %s", r.NumLine, cols[0])
+		}
 		low, err := decodeHexStrToInt32(rs[0])
 		if err != nil {
 			return fmt.Errorf("invalid format at line %d: %s", r.NumLine, err)
-- 
2.43.0


From b7d56440de8fd2ed0ed9d5b6fb3e0a174a113fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 33/57] fix: decode an escape that follows an unfinished one

---
 dictionary/dicbuilder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 58c630e..473bf59 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -181,13 +181,10 @@ func (r *lexiconReader) decode(s []byte) []byte {
 		i += width
 		switch rc {
 		case '\\':
-			if nmark >= 0 {
-				nmark = -1
-			} else {
-				r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
-				last = i - width
-				umark = runecount
-			}
+			nmark = -1
+			r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
+			last = i - width
+			umark = runecount
 		case 'u':
 			if nmark >= 0 {
 				nmark = -1
-- 
2.43.0


From a36a097d2e2621a97fd6951ea88d064173b0b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 34/57] fix: list the parts of speech of entries

---
 dictionary/dicprinter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 6013f06..695024a 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -32,7 +32,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	}
 
 	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, possize, possize)
+	posStrings := make([]string, 0, possize)
 	for pid := 0; pid < possize; pid++ {
 		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
 	}
-- 
2.43.0


From 211c2cfc0ebb78aadf13e4fb0c713f6863738e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 35/57] fix: list split ids without empty ones before them

---
 dictionary/dicprinter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 695024a..d236e74 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -86,7 +86,7 @@ func splitToString(split []int32) string {
 	if len(split) == 0 {
 		return "*"
 	}
-	splitstrs := make([]string, len(split), len(split))
+	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
-- 
2.43.0


From b353d1513933ab56b9b988b8964e0ec75c92f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 36/57] fix: leave the system dictionary alone when listing a
 user dictionary

---
 dictionary/dicprinter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index d236e74..7c18198 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -25,7 +25,8 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	} else if systemDict == nil {
 		return errors.New("the system dictionary is not specified")
 	} else {
-		grammar = systemDict.Grammar
+		grammar = &Grammar{}
+		grammar.AddPosList(systemDict.Grammar)
 		if dic.Header.Version == UserDictVersion2 {
 			grammar.AddPosList(dic.Grammar)
 		}
-- 
2.43.0


From bf1487bb1da17d8854833e0cadbf006a8a3f63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 37/57] fix: dicconv: stop when the dictionary cannot be read

---
 dicconv/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dicconv/main.go b/dicconv/main.go
index 638a81b..3ed2d09 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -65,6 +65,7 @@ Options:
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
 	}
 	defer fromdic.Close()
 
-- 
2.43.0


From 15e8ff4ba1f43bfd45abb7dc0f7d671702425f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 38/57] fix: gosudachicli: keep the newline state across CRLF
 pairs

---
 gosudachicli/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 9476437..ac011d6 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -161,7 +161,7 @@ func (norm *normalizer) Read(p []byte) (n int, err error) {
 		switch {
 		case p[i] == '\n' && norm.lastChar == '\r':
 			copy(p[i:n], p[i+1:])
-			norm.lastChar = p[i]
+			norm.lastChar = '\n'
 			n--
 			i--
 		case p[i] == '\r':
-- 
2.43.0


From 3ef900954442ff865ce6465358a565fbc8d68a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 39/57] fix: resolve relative paths against the resource
 directory

---
 settingsjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/settingsjson.go b/settingsjson.go
index 0c287da..75362e7 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -42,7 +42,7 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 	if err != nil {
 		return err
 	}
-	if internalBaseConfig.Path == nil && settings.path != "" {
+	if internalBaseConfig.Path == nil && settings.path == "" {
 		settings.path = defpath
 	} else if internalBaseConfig.Path != nil {
 		settings.path = *internalBaseConfig.Path
-- 
2.43.0


From fc46e5c078face3a57cf4cae213e6cabcb0cc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 40/57] fix: resolve each plugin entry by its own name

---
 settingsjson.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/settingsjson.go b/settingsjson.go
index 75362e7..42924f8 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -86,11 +86,11 @@ func (settings *SettingsJSON) getPath(path string) string {
 
 func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPluginFunc) ([]InputTextPlugin, error) {
 	ret := []InputTextPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.inputTextPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -117,11 +117,11 @@ func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPlug
 
 func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProviderPluginFunc) ([]OovProviderPlugin, error) {
 	ret := []OovProviderPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.oovProviderPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -148,11 +148,11 @@ func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProvider
 
 func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEditConnectionCostPluginFunc) ([]EditConnectionCostPlugin, error) {
 	ret := []EditConnectionCostPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.editConnectionCostPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -179,11 +179,11 @@ func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEdit
 
 func (settings *SettingsJSON) GetPathRewritePluginArray(makeproc MakePathRewritePluginFunc) ([]PathRewritePlugin, error) {
 	ret := []PathRewritePlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.pathRewritePlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
-- 
2.43.0


From e9b0c1f8f2ca4e059ad91ab7a9f8f195e45ea676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 41/57] fix: read the inhibited pairs from the settings

---
 inhibitconnectioncostplugin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index e720e52..8480428 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -5,12 +5,12 @@ import (
 )
 
 type InhibitConnectionPlugin struct {
-	inhibitedPair []*[]int
+	InhibitedPair []*[]int
 }
 
 func NewInhibitConnectionPlugin(inhibitedPair []*[]int) *InhibitConnectionPlugin {
 	return &InhibitConnectionPlugin{
-		inhibitedPair: inhibitedPair,
+		InhibitedPair: inhibitedPair,
 	}
 }
 
@@ -23,7 +23,7 @@ func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
 }
 
 func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
-	for _, pair := range p.inhibitedPair {
+	for _, pair := range p.InhibitedPair {
 		if len(*pair) < 2 {
 			continue
 		}
-- 
2.43.0


From d3f8690b79ebd7dd3ac8aad063d06f52b72d73ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 42/57] fix: load user dictionaries of the first version

---
 dictionary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 9f67420..2f7ae2a 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -131,7 +131,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return int16(cost), nil
 	})
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
-	d.grammar.AddPosList(dict.Grammar)
+	if dict.Grammar != nil { // a dictionary of the first version has none
+		d.grammar.AddPosList(dict.Grammar)
+	}
 	return nil
 }
 
-- 
2.43.0


From 73efd9f205028896746aed21fc72d2a575113a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 43/57] fix: report automatic costs that cannot be computed

---
 dictionary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 2f7ae2a..e57e16d 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -117,7 +117,7 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		d.oovProviderPlugins,
 		[]PathRewritePlugin{},
 	)
-	userLexicon.CalculateCost(func(text string) (int16, error) {
+	err = userLexicon.CalculateCost(func(text string) (int16, error) {
 		ms, err := tokenizer.Tokenize("C", text)
 		if err != nil {
 			return int16(mincost), err
@@ -130,6 +130,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		}
 		return int16(cost), nil
 	})
+	if err != nil {
+		return err
+	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	if dict.Grammar != nil { // a dictionary of the first version has none
 		d.grammar.AddPosList(dict.Grammar)
-- 
2.43.0


From 79d5472cc05bcc9816d34153a11659a5cd517775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 44/57] fix: internal cost of no morphemes

---
 morpheme.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/morpheme.go b/morpheme.go
index 975d377..f331b7d 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -157,5 +157,8 @@ func (l *MorphemeList) GetDictionaryId(index int) int {
 }
 
 func (l *MorphemeList) GetInternalCost() int {
+	if len(l.path) == 0 {
+		return 0
+	}
 	return l.path[len(l.path)-1].GetPathCost() - l.path[0].GetPathCost()
 }
-- 
2.43.0


From 48c86f5ee3b987b2a0a62cb91febf249d0bf6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 45/57] fix: gosudachicli: keep the output printed before a
 failure

---
 gosudachicli/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index ac011d6..92fb658 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -313,6 +313,7 @@ Options:
 	}
 
 	var output io.Writer
+	flush := func() {}
 	if outputfile != "" {
 		if !filepath.IsAbs(outputfile) {
 			var err error
@@ -329,7 +330,8 @@ Options:
 		}
 		defer outputfd.Close()
 		bufiooutput := bufio.NewWriter(outputfd)
-		defer bufiooutput.Flush()
+		flush = func() { bufiooutput.Flush() }
+		defer flush()
 		output = bufiooutput
 	} else {
 		output = os.Stdout
@@ -389,12 +391,14 @@ Options:
 			input, err := os.OpenFile(arg, os.O_RDONLY, 0644)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
+				flush()
 				os.Exit(1)
 			}
 			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
 			input.Close()
 			if err != nil {
 				fmt.Fprintln(os.Stderr, err)
+				flush()
 				os.Exit(1)
 			}
 		}
@@ -402,6 +406,7 @@ Options:
 		err = runFromReader(tokenizer, mode, os.Stdin, output, printall, ignoreerr)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
+			flush()
 			os.Exit(1)
 		}
 	}
-- 
2.43.0


From 58bc75be8aee2b8bccbe41ff2673a58f26b863c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 46/57] fix: report a failure to read the header of the matrix

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 473bf59..bca8467 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -507,6 +507,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err == io.EOF {
 		return fmt.Errorf("invalid format at line %d", r.NumLine)
 	}
+	if err != nil {
+		return err
+	}
 
 	fmt.Fprint(os.Stderr, "writing the connection matrix...")
 
-- 
2.43.0


From 0747f9bf85c9e0f63c444db8150f0384bb553b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 47/57] fix: report a failure to write the word attributes

---
 dictionary/dalexicon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 614f214..9d4249d 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -351,6 +351,9 @@ func (lexicon *DoubleArrayLexicon) WriteWordInfos(writer io.Writer, offset int64
 			return 0, offsets, err
 		}
 		n, err := buffer.WriteTo(writer)
+		if err != nil {
+			return 0, offsets, err
+		}
 		buffer.Reset()
 		position += n
 	}
-- 
2.43.0


From 03c9f54b7811a990cc49125c93c92f9a15e20506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 48/57] fix: report failures to write a listing or a header

---
 dictionary/dicprinter.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 7c18198..54389d6 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -47,7 +47,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 
 		unitType := getUnitType(wi)
 
-		fmt.Fprintf(output,
+		_, err := fmt.Fprintf(output,
 			"%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n",
 			wi.Surface,
 			leftId,
@@ -63,6 +63,9 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 			splitToString(wi.BUnitSplit),
 			splitToString(wi.WordStructure),
 		)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -117,22 +120,30 @@ func PrintHeader(dictfile string, output io.Writer) error {
 		return fmt.Errorf("invalid header: %s", dictfile)
 	}
 
-	fmt.Fprintf(output, "filename: %s\n", dictfile)
+	_, err = fmt.Fprintf(output, "filename: %s\n", dictfile)
+	if err != nil {
+		return err
+	}
 
 	switch dh.Version {
 	case SystemDictVersion:
-		fmt.Fprintln(output, "type: system dictionary")
+		_, err = fmt.Fprintln(output, "type: system dictionary")
 	case UserDictVersion, UserDictVersion2:
-		fmt.Fprintln(output, "type: user dictionary")
+		_, err = fmt.Fprintln(output, "type: user dictionary")
 	default:
 		fmt.Fprintln(output, "invalid file")
 		os.Exit(1)
 	}
+	if err != nil {
+		return err
+	}
 
 	ctime := time.Unix(dh.CreateTime, 0)
 	zone, _ := ctime.Zone()
-	fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
-	fmt.Fprintf(output, "description: %s\n", dh.Description)
-
-	return nil
+	_, err = fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(output, "description: %s\n", dh.Description)
+	return err
 }
-- 
2.43.0


From cd5a218b35dded6302ab60a8f17892452c32fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 49/57] fix: gosudachicli: report a failure to write the output

---
 gosudachicli/main.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 92fb658..573a64c 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -270,6 +270,21 @@ func run(tokenizer *gosudachi.JapaneseTokenizer, mode string, text string, outpu
 	return nil
 }
 
+// errWriter keeps the first error of the underlying writer
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.w.Write(p)
+	return n, w.err
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, `Usage of %s:
@@ -312,7 +327,7 @@ Options:
 		resourcesdir = filepath.Dir(ex)
 	}
 
-	var output io.Writer
+	output := &errWriter{w: os.Stdout}
 	flush := func() {}
 	if outputfile != "" {
 		if !filepath.IsAbs(outputfile) {
@@ -330,11 +345,13 @@ Options:
 		}
 		defer outputfd.Close()
 		bufiooutput := bufio.NewWriter(outputfd)
-		flush = func() { bufiooutput.Flush() }
+		flush = func() {
+			if err := bufiooutput.Flush(); output.err == nil {
+				output.err = err
+			}
+		}
 		defer flush()
-		output = bufiooutput
-	} else {
-		output = os.Stdout
+		output.w = bufiooutput
 	}
 
 	settings, pluginmaker, err := parseSettings(resourcesdir, settingfile, mergesettings)
@@ -410,6 +427,12 @@ Options:
 			os.Exit(1)
 		}
 	}
+
+	flush()
+	if output.err != nil {
+		fmt.Fprintln(os.Stderr, output.err)
+		os.Exit(1)
+	}
 }
 
 func parseSettings(basePath string, settingfile string, mergeString string) (gosudachi.Settings, gosudachi.PluginMaker, error) {
-- 
2.43.0


From 9bb8f913316a04c533cdd3a96143e440f466511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 50/57] fix: refuse an inhibited pair outside the matrix

---
 dictionary/grammar.go          | 5 +++++
 inhibitconnectioncostplugin.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 66d88f0..b48a488 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -96,6 +96,11 @@ func (g *Grammar) GetPosId(posstrings ...string) int16 {
 	return g.GetPartOfSpeechId(posstrings)
 }
 
+// HasConnectCost tells whether the ids are in the connection matrix.
+func (g *Grammar) HasConnectCost(leftId int, rightId int) bool {
+	return leftId >= 0 && leftId < int(g.leftIdSize) && rightId >= 0 && rightId < int(g.rightIdSize)
+}
+
 func (g *Grammar) GetConnectCost(leftId int16, rightId int16) int16 {
 	s := g.connectTableOffset + int(leftId)*2 + 2*int(g.leftIdSize)*int(rightId)
 	_, cost := bufferToInt16(g.connectTableBytes, s)
diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index 8480428..26b49ab 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -1,6 +1,8 @@
 package gosudachi
 
 import (
+	"fmt"
+
 	"github.com/msnoigrs/gosudachi/dictionary"
 )
 
@@ -27,6 +29,9 @@ func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
 		if len(*pair) < 2 {
 			continue
 		}
+		if !grammar.HasConnectCost((*pair)[0], (*pair)[1]) {
+			return fmt.Errorf("InhibitConnectionPlugin: no such pair: %v", *pair)
+		}
 		InhibitConnection(grammar, int16((*pair)[0]), int16((*pair)[1]))
 	}
 	return nil
-- 
2.43.0


From 65711e1c2f3525711b11f4edfd3c4c5a79a965ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 51/57] fix: close the dictionaries when a dictionary cannot be
 set up

---
 dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index e57e16d..eabdfaa 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -40,6 +40,12 @@ func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugi
 	if err != nil {
 		return nil, fmt.Errorf("fail to read a system dictionary: %s", err)
 	}
+	complete := false
+	defer func() {
+		if !complete {
+			d.Close()
+		}
+	}()
 
 	for _, plugin := range editConnectionCostPlugins {
 		err := plugin.SetUp(d.grammar)
@@ -82,6 +88,7 @@ func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugi
 			return nil, fmt.Errorf("fail to read a user dictionary: %s", err)
 		}
 	}
+	complete = true
 	return d, nil
 }
 
-- 
2.43.0


From 573afe6a6233a7cc4055cd1521880e261d3400c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 52/57] fix: open the rest of a file as a trie

---
 dartsclone/da.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dartsclone/da.go b/dartsclone/da.go
index 0cb35af..83459da 100644
--- a/dartsclone/da.go
+++ b/dartsclone/da.go
@@ -73,6 +73,7 @@ func (da *DoubleArray) Open(f *os.File, position int64, totalSize int64) (err er
 			return err
 		}
 		totalSize = finfo.Size()
+		totalSize -= position
 	}
 	da.buffer, err = mmap.Mmap(f, false, position, totalSize)
 	if err != nil {
-- 
2.43.0


From 386c2485eed6011d30c8f9953a421d5a12eaf943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 53/57] fix: the surface of a morpheme of an ill-formed text

---
 morpheme.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/morpheme.go b/morpheme.go
index f331b7d..228ab70 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -109,7 +109,21 @@ func (l *MorphemeList) GetEnd(index int) int {
 func (l *MorphemeList) GetSurface(index int) string {
 	begin := l.GetBegin(index)
 	end := l.GetEnd(index)
-	return string([]rune(l.inputText.OriginalText)[begin:end])
+	// cut the text itself as it may be ill-formed
+	text := l.inputText.OriginalText
+	b, e := len(text), len(text)
+	n := 0
+	for i := range text {
+		if n == begin {
+			b = i
+		}
+		if n == end {
+			e = i
+			break
+		}
+		n++
+	}
+	return text[b:e]
 }
 
 func (l *MorphemeList) GetWordInfo(index int) *dictionary.WordInfo {
-- 
2.43.0


From f83481a83206f14729b64a591d2eb199b18216c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 54/57] fix: find paths whose total cost exceeds 32 bits

---
 lattice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattice.go b/lattice.go
index 2568770..97a3ef3 100644
--- a/lattice.go
+++ b/lattice.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"math"
 	"strings"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
@@ -12,6 +11,8 @@ import (
 
 const (
 	NullSurface = "(null)"
+
+	maxTotalCost = int(^uint(0) >> 1)
 )
 
 var UndefinedWordInfo = &dictionary.WordInfo{
@@ -228,7 +229,7 @@ func (l *Lattice) HasPreviousNode(index int) bool {
 
 func (l *Lattice) connectNode(rNode *LatticeNode) {
 	begin := rNode.Begin
-	rNode.totalCost = math.MaxInt32
+	rNode.totalCost = maxTotalCost
 	for _, lNode := range l.endLists[begin] {
 		if !lNode.isConnectedToBOS {
 			continue
-- 
2.43.0


From fcf3b73b3f1749923bc77828dceaac22704501a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 55/57] fix: connect a node put into the lattice again as if it
 were new

---
 lattice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattice.go b/lattice.go
index 97a3ef3..69de6bd 100644
--- a/lattice.go
+++ b/lattice.go
@@ -230,6 +230,7 @@ func (l *Lattice) HasPreviousNode(index int) bool {
 func (l *Lattice) connectNode(rNode *LatticeNode) {
 	begin := rNode.Begin
 	rNode.totalCost = maxTotalCost
+	rNode.bestPreviousNode = nil
 	for _, lNode := range l.endLists[begin] {
 		if !lNode.isConnectedToBOS {
 			continue
-- 
2.43.0


From b43741d2bfd5393f7d5aca01bf92e1096c507fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 56/57] fix: numeral joining joins part of the digits after a
 word that is no numeral

---
 joinnumericplugin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 15d212e..6d15956 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -107,12 +107,12 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 			}
 		} else {
 			if beginIndex >= 0 {
+				pathLen := len(*path)
 				if parser.done() {
 					err := p.concatNodes(path, beginIndex, i, lattice, parser)
 					if err != nil {
 						return fmt.Errorf("JoinNumericPlugin: %s", err)
 					}
-					i = beginIndex + 1
 				} else {
 					wi := (*path)[i-1].GetWordInfo()
 					ss := wi.NormalizedForm
@@ -122,9 +122,10 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 						if err != nil {
 							return fmt.Errorf("JoinNumericPlugin: %s", err)
 						}
-						i = beginIndex + 2
 					}
 				}
+				// still the word after the numeral
+				i -= pathLen - len(*path)
 			}
 			beginIndex = -1
 			if !commaAsDigit && s != "," {
-- 
2.43.0


From f5bfcf184c2896decc3ffa38b9e071468f3290f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 57/57] fix: a part of speech with too few or too many names is
 taken for one of the dictionary's, or panics

---
 dictionary/grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index b48a488..307cc41 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -80,6 +80,9 @@ func (g *Grammar) GetPartOfSpeechString(posId int16) []string {
 }
 
 func (g *Grammar) GetPartOfSpeechId(pos []string) int16 {
+	if len(pos) != posDepth {
+		return int16(-1)
+	}
 L:
 	for i, p := range g.posList {
 		for j := 0; j < posDepth; j++ {
-- 
2.43.0


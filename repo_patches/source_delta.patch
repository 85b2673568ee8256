From 9620c381788081228f585497b68a280855126f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 01/90] fix: refuse to add attributes to a named group after
 storage was allocated

---
 base/dense.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index d3a87df..494c8c3 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -233,10 +233,16 @@ func (inst *DenseInstances) AddAttribute(a Attribute) AttributeSpec {
 }
 
 // AddAttributeToAttributeGroup adds an Attribute to a given ag
+//
+// Returns an error if storage has already been allocated via Extend.
 func (inst *DenseInstances) AddAttributeToAttributeGroup(newAttribute Attribute, ag string) (AttributeSpec, error) {
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	if inst.fixed {
+		return AttributeSpec{-1, 0, nil}, fmt.Errorf("Can't add additional Attributes")
+	}
+
 	// Check if the ag exists
 	if _, ok := inst.agMap[ag]; !ok {
 		return AttributeSpec{-1, 0, nil}, fmt.Errorf("AttributeGroup '%s' doesn't exist. Call CreateAttributeGroup() first", ag)
-- 
2.43.0


From c9fdb3b18177fc690281ba469e6805a6f596de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 02/90] fix: iterate over a view's own rows, in order

---
 base/view.go | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/base/view.go b/base/view.go
index 99d59d8..faf0487 100644
--- a/base/view.go
+++ b/base/view.go
@@ -202,28 +202,26 @@ func (v *InstancesView) Get(as AttributeSpec, row int) []byte {
 
 // MapOverRows, see DenseInstances.MapOverRows.
 //
-// IMPORTANT: MapOverRows is not guaranteed to be ordered, but this one
-// especially so.
+// Rows are visited in the order in which they appear in this InstancesView.
 func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, int) (bool, error)) error {
-	if v.maskRows {
-		rowBuf := make([][]byte, len(as))
-		for r := range v.rows {
-			row := v.rows[r]
-			for i, a := range as {
-				rowBuf[i] = v.src.Get(a, row)
-			}
-			ok, err := rowFunc(rowBuf, r)
-			if err != nil {
-				return err
-			}
-			if !ok {
-				break
-			}
-		}
-		return nil
-	} else {
+	if v.rows == nil {
 		return v.src.MapOverRows(as, rowFunc)
 	}
+	_, rows := v.Size()
+	rowBuf := make([][]byte, len(as))
+	for r := 0; r < rows; r++ {
+		for i, a := range as {
+			rowBuf[i] = v.Get(a, r)
+		}
+		ok, err := rowFunc(rowBuf, r)
+		if err != nil {
+			return err
+		}
+		if !ok {
+			break
+		}
+	}
+	return nil
 }
 
 // Size Returns the number of Attributes and rows this InstancesView
-- 
2.43.0


From 0a11e178245df257b47f9a6bfa1565c00b807911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 03/90] fix: mark and unmark class attributes of a view by
 equality

---
 base/view.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/base/view.go b/base/view.go
index faf0487..2722b8a 100644
--- a/base/view.go
+++ b/base/view.go
@@ -152,24 +152,23 @@ func (v *InstancesView) AllAttributes() []Attribute {
 // class Attributes, if it hasn't been filtered.
 func (v *InstancesView) AddClassAttribute(a Attribute) error {
 	// Check that this Attribute is defined
-	matched := false
 	for _, r := range v.AllAttributes() {
 		if r.Equals(a) {
-			matched = true
+			v.classAttrs[r] = true
+			return nil
 		}
 	}
-	if !matched {
-		return fmt.Errorf("Attribute has been filtered")
-	}
-
-	v.classAttrs[a] = true
-	return nil
+	return fmt.Errorf("Attribute has been filtered")
 }
 
 // RemoveClassAttribute removes the given Attribute from the set of
 // class Attributes.
 func (v *InstancesView) RemoveClassAttribute(a Attribute) error {
-	v.classAttrs[a] = false
+	for r := range v.classAttrs {
+		if r.Equals(a) {
+			v.classAttrs[r] = false
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From c628083e4a9ab7259f3371bd4cc16e613db03460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 04/90] fix: report a row visitor's error from
 Mat64Instances.MapOverRows

---
 base/mat.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/mat.go b/base/mat.go
index f644cf3..11f35ff 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -99,9 +99,12 @@ func (m *Mat64Instances) MapOverRows(as []AttributeSpec, f func([][]byte, int) (
 			PackFloatToBytesInline(m.Data.At(i, as.position), rowData[j])
 		}
 		stat, err := f(rowData, i)
-		if !stat {
+		if err != nil {
 			return err
 		}
+		if !stat {
+			break
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 232edcf22ed95baeaf56f1aea4bece6db3c3faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 05/90] fix: pass unfiltered attributes through unchanged when
 iterating over filtered instances

---
 base/filtered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/filtered.go b/base/filtered.go
index 0d4f77f..cf25f59 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -186,6 +186,10 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
+			if l.unfilteredMap[asv[i].attr] {
+				newRowBuf[i] = b
+				continue
+			}
 			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
-- 
2.43.0


From c734b6f5656061405708f3ff2067f70e459ec3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 06/90] fix: sort numeric attributes by value, including
 negative ones and every key

---
 base/sort.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index 1cbfa57..e6a9564 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -3,13 +3,26 @@ package base
 import (
 	"bytes"
 	"encoding/binary"
+	"math"
 )
 
-func sortXorOp(b []byte) []byte {
-	ret := make([]byte, len(b))
-	copy(ret, b)
-	ret[0] ^= 0x80
-	return ret
+// sortKey returns bytes which order like the values of a under a
+// little-endian byte comparison.
+func sortKey(a Attribute, b []byte) []byte {
+	if _, ok := a.(*FloatAttribute); !ok {
+		return b
+	}
+	val := UnpackBytesToFloat(b)
+	if val == 0 {
+		val = 0 // -0.0 and 0.0 are the same number
+	}
+	bits := math.Float64bits(val)
+	if bits>>63 != 0 {
+		bits = ^bits
+	} else {
+		bits |= 1 << 63
+	}
+	return PackU64ToBytes(bits)
 }
 
 type sortSpec struct {
@@ -47,11 +60,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		byteBuf := make([]byte, rowSize)
 
 		for i, r := range row {
-			if i == 0 {
-				binary.Write(buf, binary.LittleEndian, sortXorOp(r))
-			} else {
-				binary.Write(buf, binary.LittleEndian, r)
-			}
+			binary.Write(buf, binary.LittleEndian, sortKey(attrs[i].GetAttribute(), r))
 		}
 
 		buf.Read(byteBuf)
-- 
2.43.0


From c5ccbe9f269dc417fa6665b08e77f9159c7ed448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:03 +0000
Subject: [PATCH 07/90] fix: make LazyShuffle a permutation of the rows

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2def385..b1a47cc 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -401,9 +401,9 @@ func LazyShuffle(from FixedDataGrid) FixedDataGrid {
 	_, rows := from.Size()
 	rowMap := make(map[int]int)
 	for i := 0; i < rows; i++ {
+		rowMap[i] = i
 		j := rand.Intn(i + 1)
-		rowMap[i] = j
-		rowMap[j] = i
+		rowMap[i], rowMap[j] = rowMap[j], rowMap[i]
 	}
 	return NewInstancesViewFromRows(from, rowMap)
 }
-- 
2.43.0


From f6e20607edf0fd99c1e2ace88e7ba0cdf6611134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 08/90] fix: draw exactly the requested number of rows when
 sampling with replacement

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index b1a47cc..96c8fd7 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -429,13 +429,13 @@ func Shuffle(from FixedDataGrid) FixedDataGrid {
 // IMPORTANT: There's a high chance of seeing duplicate rows
 // whenever size is close to the row count.
 func SampleWithReplacement(from FixedDataGrid, size int) FixedDataGrid {
-	rowMap := make(map[int]int)
+	rowMap := make([]int, size)
 	_, rows := from.Size()
 	for i := 0; i < size; i++ {
 		srcRow := rand.Intn(rows)
 		rowMap[i] = srcRow
 	}
-	return NewInstancesViewFromRows(from, rowMap)
+	return NewInstancesViewFromVisible(from, rowMap, from.AllAttributes())
 }
 
 // CheckCompatible checks whether two DataGrids have the same Attributes
-- 
2.43.0


From 127ffc9f6b89c9c38dcbed0a96ec6eaf4f2b1c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 09/90] fix: count every row in the indexed class distributions

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 96c8fd7..4054c6d 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -146,7 +146,7 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 			ret[0]++
 		}
 
-		return false, nil
+		return true, nil
 	})
 
 	return ret
@@ -177,7 +177,7 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
 		index := UnpackBytesToU64(vals[0])
 		ret[int(index)]++
-		return false, nil
+		return true, nil
 	})
 
 	return ret
-- 
2.43.0


From d55e0b5f478cbb3b508ace328e642457703300f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 10/90] fix: grids with different attribute counts in a group
 are not strictly compatible

---
 base/util_instances.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index 4054c6d..282956e 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -490,6 +490,9 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 		ag2 := d2ags[a]
 		a1 := ag1.Attributes()
 		a2 := ag2.Attributes()
+		if len(a1) != len(a2) {
+			return false
+		}
 		for i := range a1 {
 			at1 := a1[i]
 			at2 := a2[i]
-- 
2.43.0


From 669ef911823d27f8c0920a2f8ed68192421afaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 11/90] fix: do not count the header as a row when parsing CSV
 into attribute groups

---
 base/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 93bb63d..0cee9b7 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -295,6 +295,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		return nil, err
 	}
 
+	if hasHeaders {
+		rowCount--
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From 85e53631bf8d7b974ff99feba9d867ddc4705ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 12/90] fix: copy the template's layout when its groups hold
 different categorical attributes

---
 base/util_instances.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 282956e..96774eb 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -44,10 +44,13 @@ func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *De
 		if ag, ok := template.agRevMap[s.pond]; !ok {
 			panic(ag)
 		} else {
-			_, err := instances.AddAttributeToAttributeGroup(a, ag)
+			// The template's groups may hold Attributes which aren't
+			// Compatible with each other (AddAttribute permits it)
+			err := instances.ags[instances.agMap[ag]].AddAttribute(a)
 			if err != nil {
 				panic(err)
 			}
+			instances.attributes = append(instances.attributes, a)
 		}
 	}
 	return instances
-- 
2.43.0


From 24a01a9fda61a30a9dd1e01d44e1d520d2f69e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 13/90] fix: replace the old content when writing data sets to
 a file

---
 base/arff.go                | 2 +-
 base/serialize_instances.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 996201b..44188df 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -31,7 +31,7 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
 
 	// Open output file
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 7239776..c1f1dd4 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -12,7 +12,7 @@ import (
 )
 
 func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
 func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 59adfb68961141830093a7fa2fec832d32672ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 14/90] fix: read the values of an ARFF categorical attribute
 whatever their spacing

---
 base/arff.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 44188df..5f349a6 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -146,23 +146,13 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		default:
 			if fields[2][0] == '{' {
 				if strings.HasSuffix(fields[len(fields)-1], "}") {
-					var cats []string
-					if len(fields) > 3 {
-						cats = fields[2:len(fields)]
-					} else {
-						cats = strings.Split(fields[2], ",")
-					}
-					if len(cats) == 0 {
-						panic(fmt.Errorf("Empty categorical field on line '%s'", line))
-					}
-					cats[0] = cats[0][1:]                                            // Remove leading '{'
-					cats[len(cats)-1] = cats[len(cats)-1][:len(cats[len(cats)-1])-1] // Remove trailing '}'
-					for i, v := range cats {                                         // Miaow
+					// The values are everything between the brackets,
+					// separated by commas
+					vals := strings.TrimSpace(line[len(fields[0]):])
+					vals = strings.TrimSpace(vals[len(fields[1]):])
+					cats := strings.Split(vals[1:len(vals)-1], ",")
+					for i, v := range cats {
 						cats[i] = strings.TrimSpace(v)
-						if strings.HasSuffix(cats[i], ",") {
-							// Strip end comma
-							cats[i] = cats[i][0 : len(cats[i])-1]
-						}
 					}
 					attr = NewCategoricalAttribute()
 					for _, v := range cats {
-- 
2.43.0


From 302a5a7fad3c2367fd6bb296d4348b746f0221e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 15/90] fix: count the rows of an ARFF file whose @data line
 ends in a blank

---
 base/arff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/arff.go b/base/arff.go
index 5f349a6..64b9e4a 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -102,6 +102,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 		}
 		if line[0] == '@' {
 			line = strings.ToLower(line)
+			line = strings.TrimSpace(line)
 			if line == "@data" {
 				counting = true
 			}
-- 
2.43.0


From 73bd9d3ae89a3b6e0e4db17d6586c0ee317747fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 16/90] fix: match only a decimal point when estimating the
 precision of a file

---
 base/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/csv.go b/base/csv.go
index 0cee9b7..88a9c7e 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -31,7 +31,7 @@ func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
 // digits occuring anywhere after the decimal point within the reader.
 func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	// Creat a basic regexp
-	rexp := regexp.MustCompile("[0-9]+(.[0-9]+)?")
+	rexp := regexp.MustCompile("[0-9]+(\\.[0-9]+)?")
 
 	// Scan through the file line-by-line
 	maxL := 0
-- 
2.43.0


From 636d98f97b446488ee8de5030f7daf402b375cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 17/90] fix: restore a categorical attribute which has no
 values yet

---
 base/categorical.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/base/categorical.go b/base/categorical.go
index ddcffb1..97e31cc 100644
--- a/base/categorical.go
+++ b/base/categorical.go
@@ -31,8 +31,20 @@ func (Attr *CategoricalAttribute) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	for _, v := range d["values"].([]interface{}) {
-		Attr.values = append(Attr.values, v.(string))
+	if d["values"] == nil {
+		// Nothing has been added yet
+		return nil
+	}
+	values, ok := d["values"].([]interface{})
+	if !ok {
+		return fmt.Errorf("values is not a list")
+	}
+	for _, v := range values {
+		s, ok := v.(string)
+		if !ok {
+			return fmt.Errorf("value %v is not a string", v)
+		}
+		Attr.values = append(Attr.values, s)
 	}
 	return nil
 }
-- 
2.43.0


From 55a5a69fd18bf09aa3a1852918f283101ff10606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 18/90] fix: read whole cells from the data section of
 serialized instances

---
 base/serialize_instances.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index c1f1dd4..1370f68 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -166,17 +166,11 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 	for i := 0; i < rowCount; i++ {
 		for j, s := range specs {
 			r := ret.Get(s, i)
-			n, err := reader.Read(r)
-			if n != len(r) {
-				return nil, WrapError(fmt.Errorf("Expected %d bytes (read %d) on row %d", len(r), n, i))
-			}
-			ret.Set(s, i, r)
-			if err != nil {
-				if i == rowCount-1 && j == len(specs)-1 && err == io.EOF {
-					break
-				}
+			// Read may stop short of a whole cell
+			if _, err := io.ReadFull(reader, r); err != nil {
 				return nil, WrapError(fmt.Errorf("Read error in data section (at row %d from %d, attr %d from %d): %s", i, rowCount, j, len(specs), err))
 			}
+			ret.Set(s, i, r)
 		}
 	}
 
-- 
2.43.0


From 4f43bd7c98e8007c8c8a11616723a6700040767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:37 +0000
Subject: [PATCH 19/90] fix: finish the file when saving an ID3 tree

---
 trees/id3.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 8574d48..c59e7e5 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -570,8 +570,11 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return t.SaveWithPrefix(writer, "")
+	err = t.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-- 
2.43.0


From 043c2c69a61138ef5f56c39237348a862d6d36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:08 +0000
Subject: [PATCH 20/90] fix: check the whole gzip stream before reading data
 sets or models from it

---
 base/serialize.go           | 10 ++++++++++
 base/serialize_instances.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 5cf7ebe..498aad3 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -68,6 +68,13 @@ func (f *FunctionalTarReader) GetNamedFile(name string) ([]byte, error) {
 	return returnCandidate, nil
 }
 
+// checkGzip reads a gzip stream through to its end, where its checksum is, so
+// that a truncated or corrupted file is reported before any of it is used.
+func checkGzip(r io.Reader) error {
+	_, err := io.Copy(ioutil.Discard, r)
+	return err
+}
+
 func tarPrefix(prefix string, suffix string) string {
 	if prefix == "" {
 		return suffix
@@ -127,6 +134,9 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 	if err != nil {
 		return nil, DescribeError("Can't decompress", err)
 	}
+	if err := checkGzip(gzr); err != nil {
+		return nil, DescribeError("Can't decompress", err)
+	}
 
 	regenerateFunc := func() *tar.Reader {
 		f.Seek(0, os.SEEK_SET)
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 1370f68..5703654 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -195,6 +195,9 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 	if err != nil {
 		panic(WrapError(err))
 	}
+	if err := checkGzip(gzReader); err != nil {
+		return nil, WrapError(err)
+	}
 	regenerateTarReader := func() *tar.Reader {
 		f.Seek(0, os.SEEK_SET)
 		gzReader.Reset(f)
-- 
2.43.0


From 3b77f43c1cb49e29f92df2076b92d9ec57a81866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:25 +0000
Subject: [PATCH 21/90] fix: check the dimensions of serialized instances
 against their attributes and data

---
 base/serialize_instances.go | 46 ++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 5703654..a55e7cb 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -122,6 +122,38 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		return nil, DescribeError("Unable to deserialize normal attributes", err)
 	}
 
+	// Check the dimensions against the other sections before relying on them
+	if attrCount != len(normalAttrs)+len(cAttrs) {
+		return nil, WrapError(fmt.Errorf("DIMS: expected %d attribute(s), got %d", attrCount, len(normalAttrs)+len(cAttrs)))
+	}
+	rowBytes := int64(0)
+	for _, attrs := range [][]Attribute{normalAttrs, cAttrs} {
+		for _, a := range attrs {
+			if _, ok := a.(*BinaryAttribute); ok {
+				rowBytes++
+			} else {
+				rowBytes += 8
+			}
+		}
+	}
+
+	// Seek through the TAR file until we get to the DATA section
+	reader := tr.Regenerate()
+	for {
+		hdr, err := reader.Next()
+		if err == io.EOF {
+			return nil, WrapError(fmt.Errorf("DATA section missing!"))
+		} else if err != nil {
+			return nil, WrapError(fmt.Errorf("Error seeking to DATA section: %s", err))
+		}
+		if hdr.Name == p("DATA") {
+			if rowCount < 0 || (rowBytes == 0 && hdr.Size != 0) || (rowBytes > 0 && (hdr.Size%rowBytes != 0 || hdr.Size/rowBytes != int64(rowCount))) {
+				return nil, WrapError(fmt.Errorf("DATA: %d byte(s) can't hold %d row(s) of %d byte(s)", hdr.Size, rowCount, rowBytes))
+			}
+			break
+		}
+	}
+
 	// Create the return instances
 	ret = NewDenseInstances()
 
@@ -145,20 +177,6 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 		return nil, WrapError(fmt.Errorf("Could not allocate memory"))
 	}
 
-	// Seek through the TAR file until we get to the DATA section
-	reader := tr.Regenerate()
-	for {
-		hdr, err := reader.Next()
-		if err == io.EOF {
-			return nil, WrapError(fmt.Errorf("DATA section missing!"))
-		} else if err != nil {
-			return nil, WrapError(fmt.Errorf("Error seeking to DATA section: %s", err))
-		}
-		if hdr.Name == p("DATA") {
-			break
-		}
-	}
-
 	// Resolve AttributeSpecs
 	specs := ResolveAttributes(ret, allAttributes)
 
-- 
2.43.0


From 536cb0a6d81f2fe65c4856ca8761be4ef7a2fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 22/90] fix: let a KNN classifier be saved and loaded as part
 of an ensemble

---
 knn/knn.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 0ce44fa..3fb2af3 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -349,18 +349,22 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return KNN.SaveWithPrefix(writer, "")
+	err = KNN.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
-	if err != nil {
-		return err
+	// The file's own METADATA is already there
+	if prefix != "" {
+		if err := writer.WriteMetadataAtPrefix(prefix, KNN.GetMetadata()); err != nil {
+			return err
+		}
 	}
-	err = writer.Close()
-	return err
+	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
 // Load reloads a given KNN classifier when it's the only thing in the output file.
-- 
2.43.0


From b5b0a0efa10d7e43a9f3a28b29730e0349c8aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:43 +0000
Subject: [PATCH 23/90] fix: do not close the file when saving a one-vs-all
 model as part of another

---
 meta/one_v_all.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index e6a7e6f..9338fb5 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -254,7 +254,11 @@ func (m *OneVsAllModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	return m.SaveWithPrefix(writer, "")
+	err = m.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -324,7 +328,7 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		}
 	}
 
-	return writer.Close()
+	return nil
 }
 
 func (m *OneVsAllModel) generateAttributes(from base.FixedDataGrid) map[base.Attribute]base.Attribute {
-- 
2.43.0


From 34d5312a05259aaedf16aa45ef4bda29400713c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:45 +0000
Subject: [PATCH 24/90] fix: report a precision which is not a number when
 reading a float attribute

---
 base/float.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/float.go b/base/float.go
index db01d09..56d4282 100644
--- a/base/float.go
+++ b/base/float.go
@@ -32,8 +32,8 @@ func (f *FloatAttribute) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	if precision, ok := d["precision"]; ok {
-		f.Precision = int(precision.(float64))
+	if precision, ok := d["precision"].(float64); ok {
+		f.Precision = int(precision)
 		return nil
 	}
 	return fmt.Errorf("Precision must be specified")
-- 
2.43.0


From c862844eb4941dacb08fa875c188bee1a7143559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:45 +0000
Subject: [PATCH 25/90] fix: report an integer entry of the wrong size in a
 model file

---
 base/serialize.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 498aad3..bb39139 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -215,6 +215,9 @@ func (c *ClassifierDeserializer) GetU64ForKey(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if len(b) != 8 {
+		return 0, WrapError(fmt.Errorf("%s: expected 8 bytes, got %d", key, len(b)))
+	}
 	return UnpackBytesToU64(b), nil
 }
 
-- 
2.43.0


From e36ba2fec750c52206f9d0f6ca77ef402b9f23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:48 +0000
Subject: [PATCH 26/90] fix: report a model file without KNN parameters instead
 of panicking

---
 knn/knn.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 3fb2af3..1a6897a 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -392,15 +392,20 @@ func (KNN *KNNClassifier) LoadWithPrefix(reader *base.ClassifierDeserializer, pr
 		return fmt.Errorf("Can't understand this file format")
 	}
 
-	metadata := clsMetadata.ClassifierMetadata
-	KNN.DistanceFunc = metadata["distance_func"].(string)
-	KNN.Algorithm = metadata["algorithm"].(string)
-	//KNN.NearestNeighbours = metadata["neighbours"].(int)
-	KNN.Weighted = metadata["weighted"].(bool)
-	KNN.AllowOptimisations = metadata["allow_optimizations"].(bool)
-
 	// 101 on why JSON is a bad serialization format
-	floatNeighbours := metadata["neighbours"].(float64)
+	metadata := clsMetadata.ClassifierMetadata
+	distanceFunc, ok1 := metadata["distance_func"].(string)
+	algorithm, ok2 := metadata["algorithm"].(string)
+	weighted, ok3 := metadata["weighted"].(bool)
+	allowOptimisations, ok4 := metadata["allow_optimizations"].(bool)
+	floatNeighbours, ok5 := metadata["neighbours"].(float64)
+	if !(ok1 && ok2 && ok3 && ok4 && ok5) {
+		return fmt.Errorf("This file doesn't contain the parameters of a KNN classifier")
+	}
+	KNN.DistanceFunc = distanceFunc
+	KNN.Algorithm = algorithm
+	KNN.Weighted = weighted
+	KNN.AllowOptimisations = allowOptimisations
 	KNN.NearestNeighbours = int(floatNeighbours)
 
 	KNN.TrainingData, err = reader.GetInstancesForKey(reader.Prefix(prefix, "TrainingInstances"))
-- 
2.43.0


From 8fdb1f01a53fafe4dc3b4404dbf32b01e97d22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 27/90] fix: follow the same branch every time for a value an
 ID3 tree has not seen

---
 trees/id3.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index c59e7e5..5be58d5 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -352,6 +352,24 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 }
 
+// closestChild picks the branch for a value which has none: the first one
+// ordered after it, or the last one.
+func (d *DecisionTreeNode) closestChild(classVar string) string {
+	names := make([]string, 0, len(d.Children))
+	for c := range d.Children {
+		names = append(names, c)
+	}
+	sort.Strings(names)
+	var bestChild string
+	for _, c := range names {
+		bestChild = c
+		if c > classVar {
+			break
+		}
+	}
+	return bestChild
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
@@ -395,14 +413,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 					cur = next
 				} else {
 					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.Children[cur.closestChild(classVar)]
 				}
 			}
 		}
@@ -481,14 +492,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 					cur = next
 				} else {
 					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.Children[cur.closestChild(classVar)]
 				}
 			}
 		}
-- 
2.43.0


From 1e6ba634076e8f12f4f2e44975b48875b4bcc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 28/90] fix: train naive Bayes with a class none of whose
 instances has a feature

---
 naive/bernoulli_nb.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 767a90a..8cd130f 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -250,8 +250,12 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	// Pre-calculate conditional probabilities for each class
 	for c, _ := range nb.classInstances {
 		nb.condProb[c] = make([]float64, nb.features)
+		classTerms, ok := docsContainingTerm[c]
+		if !ok {
+			// No instance of this class has any feature
+			classTerms = make([]int, nb.features)
+		}
 		for feat := 0; feat < nb.features; feat++ {
-			classTerms, _ := docsContainingTerm[c]
 			numDocs := classTerms[feat]
 			docsInClass, _ := nb.classInstances[c]
 
-- 
2.43.0


From b0fd3ff13ee3db5cc20c111e1b9bff0a4ff977b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 29/90] fix: do not prune an ID3 tree when its split leaves no
 training or no pruning rows

---
 trees/id3.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index 5be58d5..332fb63 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -542,6 +542,13 @@ func NewID3DecisionTreeFromRule(prune float64, rule RuleGenerator) *ID3DecisionT
 func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
 	if t.PruneSplit > 0.001 {
 		trainData, testData := base.InstancesTrainTestSplit(on, t.PruneSplit)
+		_, trainRows := trainData.Size()
+		_, testRows := testData.Size()
+		if trainRows == 0 || testRows == 0 {
+			// Nothing to train on or nothing to prune with
+			t.Root = InferID3Tree(on, t.Rule)
+			return nil
+		}
 		t.Root = InferID3Tree(trainData, t.Rule)
 		t.Root.Prune(testData)
 	} else {
-- 
2.43.0


From 8275fa6e1d0a8070afc614c88affb3ce5916fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 30/90] fix: break ties between naive Bayes classes the same
 way every time

---
 naive/bernoulli_nb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 8cd130f..4d0dfd4 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
 	"math"
+	"sort"
 )
 
 // A Bernoulli Naive Bayes Classifier. Naive Bayes classifiers assumes
@@ -291,7 +292,15 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 	bestScore := -math.MaxFloat64
 	bestClass := ""
 
-	for class, classCount := range nb.classInstances {
+	// Always visit the classes in the same order, so that ties are always broken the same way
+	classes := make([]string, 0, len(nb.classInstances))
+	for class := range nb.classInstances {
+		classes = append(classes, class)
+	}
+	sort.Strings(classes)
+
+	for _, class := range classes {
+		classCount := nb.classInstances[class]
 		// Init classScore with log(prior)
 		classScore := math.Log((float64(classCount)) / float64(nb.trainingInstances))
 		for f := 0; f < nb.features; f++ {
-- 
2.43.0


From 6b9b081adce7b510f7d4997271ddaa72f6bd4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 31/90] fix: do not take the unweighted fast path for a
 weighted KNN classifier

---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index 1a6897a..3be3cf4 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -126,7 +126,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Use optimised version if permitted
-	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
+	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
 			if KNN.canUseOptimisations(what) {
 				return KNN.optimisedEuclideanPredict(what.(*base.DenseInstances)), nil
-- 
2.43.0


From 2fc796a24d66e93ec1d093deefaf5907e29a44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 32/90] fix: never use the class attribute as a feature of a
 KNN classifier

---
 knn/knn.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 3be3cf4..c34d606 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -134,17 +134,18 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
-	// Remove the Attributes which aren't numeric
+	// Remove the Attributes which aren't numeric, and those we are trying to predict
+	classAttrs := KNN.TrainingData.AllClassAttributes()
 	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
+	for _, a := range base.AttributeDifference(allAttrs, classAttrs) {
 		if fAttr, ok := a.(*base.FloatAttribute); ok {
 			allNumericAttrs = append(allNumericAttrs, fAttr)
 		}
 	}
 
-	// If every Attribute is a FloatAttribute, then we remove the last one
-	// because that is the Attribute we are trying to predict.
-	if len(allNumericAttrs) == len(allAttrs) {
+	// If there's no class Attribute and every Attribute is a FloatAttribute, then we
+	// remove the last one because that is the Attribute we are trying to predict.
+	if len(classAttrs) == 0 && len(allNumericAttrs) == len(allAttrs) {
 		allNumericAttrs = allNumericAttrs[:len(allNumericAttrs)-1]
 	}
 
-- 
2.43.0


From df927a48d6afded5a5cc9ae88f8d28bedaefc80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 33/90] fix: report when a KNN classifier has fewer training
 rows than neighbours

---
 knn/knn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index c34d606..d6aed96 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -125,6 +125,10 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("attributes not compatible")
 	}
 
+	if _, trainRows := KNN.TrainingData.Size(); KNN.NearestNeighbours > trainRows {
+		return nil, errors.New("more neighbours requested than there is training data")
+	}
+
 	// Use optimised version if permitted
 	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
-- 
2.43.0


From d1decd5c36d42ea51ac51e9a51e41078a9d89fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 34/90] fix: do not count the empty nodes of a kd-tree as
 points at the origin

---
 kdtree/kdtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 6bddbe8..3b3347c 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -192,6 +192,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 }
 
 func (t *Tree) searchAllNodes(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
+	if n.feature == -2 {
+		return
+	}
+
 	vectorX := mat.NewDense(len(target), 1, target)
 	vectorY := mat.NewDense(len(target), 1, n.value)
 	length := disType.Distance(vectorX, vectorY)
-- 
2.43.0


From 5d401a916cb934f9a141163ba2f4011b49cf1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 35/90] fix: search both sides of a kd-tree when looking for
 the nearest points by angle

---
 kdtree/kdtree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 3b3347c..25a22a8 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -181,7 +181,10 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 		vectorY = mat.NewDense(1, 1, []float64{n.value[n.feature]})
 		length = disType.Distance(vectorX, vectorY)
 
-		if h.maximum().length > length {
+		// The distance along one feature doesn't bound the angle between vectors
+		_, isCosine := disType.(*pairwise.Cosine)
+
+		if isCosine || h.maximum().length > length {
 			if dir {
 				t.searchAllNodes(k, disType, target, h, n.right)
 			} else {
-- 
2.43.0


From f8204c2a0a230b7f0923d4147ec43e34a601ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 36/90] fix: filtered grids look attributes up by equality, and
 unmark every image of a class attribute

---
 base/filtered.go | 72 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index cf25f59..90f9c66 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -30,9 +30,11 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	unFilteredMap := make(map[Attribute]bool)
 	for _, a := range src.AllAttributes() {
 		unFilteredMap[a] = true
-	}
-	for _, a := range attrs {
-		unFilteredMap[a.Old] = false
+		for _, b := range attrs {
+			if a.Equals(b.Old) {
+				unFilteredMap[a] = false
+			}
+		}
 	}
 
 	// Create the return structure
@@ -51,10 +53,24 @@ func NewLazilyFilteredInstances(src FixedDataGrid, f Filter) *LazilyFilteredInst
 	return ret
 }
 
+// unfiltered returns the source's own Attribute equal to the one given, if it's
+// passed through without modification.
+func (l *LazilyFilteredInstances) unfiltered(target Attribute) (Attribute, bool) {
+	if l.unfilteredMap[target] {
+		return target, true
+	}
+	for a, ok := range l.unfilteredMap {
+		if ok && a.Equals(target) {
+			return a, true
+		}
+	}
+	return nil, false
+}
+
 // GetAttribute returns an AttributeSpecification for a given Attribute
 func (l *LazilyFilteredInstances) GetAttribute(target Attribute) (AttributeSpec, error) {
-	if l.unfilteredMap[target] {
-		return l.src.GetAttribute(target)
+	if a, ok := l.unfiltered(target); ok {
+		return l.src.GetAttribute(a)
 	}
 	var ret AttributeSpec
 	ret.pond = -1
@@ -89,8 +105,8 @@ func (l *LazilyFilteredInstances) AllAttributes() []Attribute {
 // AddClassAttribute adds a given Attribute (either before or after filtering)
 // to the set of defined class Attributes.
 func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
-		l.classAttrs[cls] = true
+	if a, ok := l.unfiltered(cls); ok {
+		l.classAttrs[a] = true
 		return nil
 	}
 	matched := false
@@ -109,17 +125,21 @@ func (l *LazilyFilteredInstances) AddClassAttribute(cls Attribute) error {
 // RemoveClassAttribute removes a given Attribute (either before or
 // after filtering) from the set of defined class Attributes.
 func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
-	if l.unfilteredMap[cls] {
-		l.classAttrs[cls] = false
+	if a, ok := l.unfiltered(cls); ok {
+		l.classAttrs[a] = false
 		return nil
 	}
+	matched := false
 	for _, a := range l.attrs {
 		if a.Old.Equals(cls) || a.New.Equals(cls) {
 			l.classAttrs[a.New] = false
-			return nil
+			matched = true
 		}
 	}
-	return fmt.Errorf("Attribute %s could not be resolved", cls)
+	if !matched {
+		return fmt.Errorf("Attribute %s could not be resolved", cls)
+	}
+	return nil
 }
 
 // AllClassAttributes returns details of all Attributes currently specified
@@ -137,33 +157,35 @@ func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 	return ret
 }
 
-func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, error) {
-	if l.unfilteredMap[as.GetAttribute()] {
-		return as, nil
+// transformNewToOldAttribute resolves an Attribute in the source. It also returns the
+// Attribute the filter knows it by, or nil if it's not filtered.
+func (l *LazilyFilteredInstances) transformNewToOldAttribute(as AttributeSpec) (AttributeSpec, Attribute, error) {
+	if _, ok := l.unfiltered(as.GetAttribute()); ok {
+		return as, nil, nil
 	}
 	for _, a := range l.attrs {
 		if a.Old.Equals(as.attr) || a.New.Equals(as.attr) {
 			as, err := l.src.GetAttribute(a.Old)
 			if err != nil {
-				return AttributeSpec{}, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
+				return AttributeSpec{}, nil, fmt.Errorf("Internal error in Attribute resolution: '%s'", err)
 			}
-			return as, nil
+			return as, a.Old, nil
 		}
 	}
-	return AttributeSpec{}, fmt.Errorf("No matching Attribute")
+	return AttributeSpec{}, nil, fmt.Errorf("No matching Attribute")
 }
 
 // Get returns a transformed byte slice stored at a given AttributeSpec and row.
 func (l *LazilyFilteredInstances) Get(as AttributeSpec, row int) []byte {
-	asOld, err := l.transformNewToOldAttribute(as)
+	asOld, old, err := l.transformNewToOldAttribute(as)
 	if err != nil {
 		panic(fmt.Sprintf("Attribute %s could not be resolved. (Error: %s)", as.String(), err.Error()))
 	}
 	byteSeq := l.src.Get(asOld, row)
-	if l.unfilteredMap[as.attr] {
+	if old == nil {
 		return byteSeq
 	}
-	newByteSeq := l.filter.Transform(asOld.attr, as.attr, byteSeq)
+	newByteSeq := l.filter.Transform(old, as.attr, byteSeq)
 	return newByteSeq
 }
 
@@ -174,23 +196,25 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	// Have to transform each item of asv into an
 	// AttributeSpec in the original
 	oldAsv := make([]AttributeSpec, len(asv))
+	oldAttrs := make([]Attribute, len(asv))
 	for i, a := range asv {
-		old, err := l.transformNewToOldAttribute(a)
+		spec, old, err := l.transformNewToOldAttribute(a)
 		if err != nil {
 			return fmt.Errorf("Couldn't fetch old Attribute: '%s'", a.String())
 		}
-		oldAsv[i] = old
+		oldAsv[i] = spec
+		oldAttrs[i] = old
 	}
 
 	// Then map over each row in the original
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
-			if l.unfilteredMap[asv[i].attr] {
+			if oldAttrs[i] == nil {
 				newRowBuf[i] = b
 				continue
 			}
-			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
+			newField := l.filter.Transform(oldAttrs[i], asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
 		return mapFunc(newRowBuf, oldRowNo)
-- 
2.43.0


From d83c70085e71202e43725552061e48b6d41257c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 37/90] fix: binary conversion of a negative number gives one

---
 filters/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/binary.go b/filters/binary.go
index 291ac7d..de95b09 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -93,7 +93,7 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 	} else if _, ok := a.(*base.FloatAttribute); ok {
 		// Float: check for non-zero
 		val := base.UnpackBytesToFloat(attrBytes)
-		if val > 0 {
+		if val != 0 {
 			ret[0] = 1
 		} else {
 			ret[0] = 0
-- 
2.43.0


From 34dcbc3a71e83994f4b88b2697bb02403395d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 38/90] fix: discretising filters recognise an equal attribute
 object

---
 filters/disc.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/filters/disc.go b/filters/disc.go
index 940829e..567dc9f 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -17,12 +17,14 @@ func (d *AbstractDiscretizeFilter) AddAttribute(a base.Attribute) error {
 	if _, ok := a.(*base.FloatAttribute); !ok {
 		return fmt.Errorf("%s is not a FloatAttribute", a)
 	}
-	_, err := d.train.GetAttribute(a)
-	if err != nil {
-		return fmt.Errorf("invalid attribute")
+	// Use the training set's own Attribute object
+	for _, own := range d.train.AllAttributes() {
+		if own.Equals(a) {
+			d.attrs[own] = true
+			return nil
+		}
 	}
-	d.attrs[a] = true
-	return nil
+	return fmt.Errorf("invalid attribute")
 }
 
 // GetAttributesAfterFiltering gets a list of before/after
-- 
2.43.0


From 61cea3b41050c7c01adba54ef798f8da3a51e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 39/90] fix: binning keeps values outside the training range in
 the first and last bin

---
 filters/binning.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filters/binning.go b/filters/binning.go
index fb9ebf6..9ac88cd 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -88,8 +88,10 @@ func (b *BinningFilter) Transform(a base.Attribute, n base.Attribute, field []by
 	// Casts to float64 to replicate a floating point precision error
 	delta := float64(maxVal-minVal) / float64(b.bins)
 	val := float64(af.GetFloatFromSysVal(field))
-	if val <= minVal {
+	if val <= minVal || maxVal <= minVal {
 		disc = 0
+	} else if val >= maxVal {
+		disc = b.bins
 	} else {
 		disc = int(math.Floor(float64(float64(val-minVal)/delta + 0.0001)))
 	}
-- 
2.43.0


From 84419486f2bfb50e8232e1633a6be57898c31991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 40/90] fix: discretised values whose printed edges coincide
 keep labels of their own

---
 filters/binning.go  |  9 +++++----
 filters/chimerge.go |  8 ++++++--
 filters/disc.go     | 19 +++++++++++++++++++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/filters/binning.go b/filters/binning.go
index 9ac88cd..20ee7a5 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -110,10 +110,11 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 			maxVal := b.maxVals[a]
 			delta := float64(maxVal-minVal) / float64(b.bins)
 			retAttr.SetName(a.GetName())
-			for i := 0; i <= b.bins; i++ {
-				floatVal := float64(i)*delta + minVal
-				fmtStr := fmt.Sprintf("%%.%df", a.(*base.FloatAttribute).Precision)
-				binVal := fmt.Sprintf(fmtStr, floatVal)
+			edges := make([]float64, b.bins+1)
+			for i := range edges {
+				edges[i] = float64(i)*delta + minVal
+			}
+			for _, binVal := range intervalLabels(edges, a.(*base.FloatAttribute).Precision) {
 				retAttr.GetSysValFromString(binVal)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
diff --git a/filters/chimerge.go b/filters/chimerge.go
index 826e8d0..c85ffb7 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -151,8 +151,12 @@ func (c *ChiMergeFilter) GetAttributesAfterFiltering() []base.FilteredAttribute
 		if c.attrs[a] {
 			retAttr := new(base.CategoricalAttribute)
 			retAttr.SetName(a.GetName())
-			for _, k := range c.tables[a] {
-				retAttr.GetSysValFromString(fmt.Sprintf("%f", k.Value))
+			edges := make([]float64, len(c.tables[a]))
+			for i, k := range c.tables[a] {
+				edges[i] = k.Value
+			}
+			for _, label := range intervalLabels(edges, 6) {
+				retAttr.GetSysValFromString(label)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
diff --git a/filters/disc.go b/filters/disc.go
index 567dc9f..54e29b8 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -3,6 +3,7 @@ package filters
 import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
+	"strconv"
 )
 
 type AbstractDiscretizeFilter struct {
@@ -44,6 +45,24 @@ func (d *AbstractDiscretizeFilter) GetAttributesAfterFiltering() []base.Filtered
 	return ret
 }
 
+// intervalLabels prints the lower edge of each interval with the given number of
+// decimals, or more if that's needed to give different edges different labels.
+func intervalLabels(edges []float64, precision int) []string {
+	ret := make([]string, len(edges))
+	for ; ; precision++ {
+		unique := true
+		for i, v := range edges {
+			ret[i] = strconv.FormatFloat(v, 'f', precision, 64)
+			if i > 0 && v != edges[i-1] && ret[i] == ret[i-1] {
+				unique = false
+			}
+		}
+		if unique || precision > 340 {
+			return ret
+		}
+	}
+}
+
 func (d *AbstractDiscretizeFilter) getAttributeSpecs() []base.AttributeSpec {
 	as := make([]base.AttributeSpec, 0)
 	// Set up the AttributeSpecs, and values
-- 
2.43.0


From 6a24854dc3c99cbfb40257f5cc37482dd6b14993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 41/90] fix: ChiMerge puts an interval's least value in that
 interval

---
 filters/chimerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index c85ffb7..807df0f 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -177,7 +177,7 @@ func (c *ChiMergeFilter) Transform(a base.Attribute, n base.Attribute, field []b
 	dis := 0
 	val := base.UnpackBytesToFloat(field)
 	for j, k := range table {
-		if k.Value < val {
+		if k.Value <= val {
 			dis = j
 			continue
 		}
-- 
2.43.0


From a3712cb00def4f990e6bccaba9b5d05ea559efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 42/90] fix: ChiMerge does not merge tied intervals below the
 minimum

---
 filters/chimerge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index 807df0f..f70a000 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -107,6 +107,9 @@ func chiMerge(inst base.FixedDataGrid, attr base.Attribute, sig float64, minrows
 		//  The higher of the two things as the value
 		//  Combining the class frequencies
 		for i, v := range minChiIndexes {
+			if len(freq) <= minrows {
+				break
+			}
 			freq = chiMergeMergeZipAdjacent(freq, v-i)
 		}
 	}
-- 
2.43.0


From a4da1bbffedbd7d9447119953617012b635ff426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 43/90] fix: ChiMerge merges with two classes (the density
 integral diverged)

---
 filters/chimerge_funcs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 6b649c1..ad7cbc7 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -54,6 +54,10 @@ func chiSquaredPercentile(k int, x float64) float64 {
 	// Implements Yahya et al.'s "A Numerical Procedure
 	//  for Computing Chi-Square Percentage Points"
 	// InterStat Journal 01/2007; April 25:page:1-8.
+	if k == 1 {
+		// The density is unbounded at zero and can't be integrated numerically
+		return math.Erf(math.Sqrt(x / 2))
+	}
 	steps := 32
 	intervals := 4 * steps
 	w := x / (4.0 * float64(steps))
-- 
2.43.0


From c492d7562e1102752fc800e663e02397229fbe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 44/90] fix: polynomial kernel of row vectors uses every
 element

---
 metrics/pairwise/poly_kernel.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metrics/pairwise/poly_kernel.go b/metrics/pairwise/poly_kernel.go
index ce3d6ec..3cc9891 100644
--- a/metrics/pairwise/poly_kernel.go
+++ b/metrics/pairwise/poly_kernel.go
@@ -18,9 +18,7 @@ func NewPolyKernel(degree int) *PolyKernel {
 // InnerProduct computes the inner product through a kernel trick
 // K(x, y) = (x^T y + 1)^d
 func (p *PolyKernel) InnerProduct(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
-	subVectorX := vectorX.ColView(0)
-	subVectorY := vectorY.ColView(0)
-	result := mat.Dot(subVectorX, subVectorY)
+	result := NewEuclidean().InnerProduct(vectorX, vectorY)
 	result = math.Pow(result+1, float64(p.degree))
 
 	return result
-- 
2.43.0


From 96bc6982990161d7171e6b02d39f7c6370d3df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:55 +0000
Subject: [PATCH 45/90] fix: cosine distance stays within its range

---
 metrics/pairwise/cosine.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metrics/pairwise/cosine.go b/metrics/pairwise/cosine.go
index 08b9ca1..4770c39 100644
--- a/metrics/pairwise/cosine.go
+++ b/metrics/pairwise/cosine.go
@@ -30,5 +30,12 @@ func (c *Cosine) Distance(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
 
 	cos := dotXY / (lengthX * lengthY)
 
+	// Rounding can take parallel vectors out of the range
+	if cos > 1 {
+		cos = 1
+	} else if cos < -1 {
+		cos = -1
+	}
+
 	return 1 - cos
 }
-- 
2.43.0


From 42a668c7ca8232b4e0ba79d51db397eda6b12c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 46/90] fix: optimised KNN accepts no rows to predict and empty
 attribute groups

---
 knn/knn_opt_euclidean.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index a6b159c..d4a4bef 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -44,7 +44,10 @@ func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base
 	rowSizes := make([]int, len(agPred))
 	for ag := range agPred {
 		if ap, ok := agPos[ag]; ok {
-
+			// There's nothing to point to without rows or Attributes
+			if len(agPred[ag].Storage()) == 0 || len(agTrain[ag].Storage()) == 0 {
+				continue
+			}
 			rowPointers[ap] = (*C.double)(unsafe.Pointer(&(agPred[ag].Storage()[0])))
 			trainPointers[ap] = (*C.double)(unsafe.Pointer(&(agTrain[ag].Storage()[0])))
 			rowSizes[ap] = agPred[ag].RowSizeInBytes() / 8
-- 
2.43.0


From 44d008c83c545ecb63f7a0c154d1e17928d8f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 47/90] fix: numeric splits consider every threshold between
 neighbouring values

---
 trees/entropy.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index faa6613..66e5148 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -144,7 +144,6 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
 			splitDist[0][refs[j].class]++
 			splitDist[1][refs[j].class]--
-			i++
 			prevInd++
 		}
 		prevVal = val
-- 
2.43.0


From 194c9cf578277598ff7b6d50722bb824f31a173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:49 +0000
Subject: [PATCH 48/90] fix: compute the Gini index from the class shares

---
 trees/gini.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trees/gini.go b/trees/gini.go
index 23b1569..4ac7444 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -71,12 +71,13 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 // computeGini computes the Gini impurity measure
 func computeGini(s map[string]int) float64 {
 	// Compute probability map
+	total := 0
+	for i := range s {
+		total += s[i]
+	}
 	p := make(map[string]float64)
 	for i := range s {
-		if p[i] == 0 {
-			continue
-		}
-		p[i] = 1.0 / float64(p[i])
+		p[i] = float64(s[i]) / float64(total)
 	}
 	// Compute overall sum
 	sum := 0.0
-- 
2.43.0


From 398597e38c8bc7f93924e45277d9da849af1faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 49/90] fix: never split on a constant numeric attribute by
 Gini index

---
 trees/gini.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trees/gini.go b/trees/gini.go
index 4ac7444..e6d9c6c 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -49,6 +49,10 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 		var splitVal float64
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			_, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitVal, 1) {
+				// Every value is the same, there's nothing to split
+				continue
+			}
 			proposedDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
 			proposedDist = base.GetClassDistributionAfterSplit(f, s)
-- 
2.43.0


From 6abdcc90bc78d06a55fd3c1aa4ba9bdd5ba6a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:55 +0000
Subject: [PATCH 50/90] fix: random trees stop choosing attributes when there
 are no more

---
 trees/random.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trees/random.go b/trees/random.go
index c5b44ed..4d20cca 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -24,7 +24,7 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 
 	attrCounter := 0
 	for {
-		if len(consideredAttributes) >= r.Attributes {
+		if len(consideredAttributes) >= r.Attributes || len(consideredAttributes) == maximumAttribute {
 			break
 		}
 		selectedAttrIndex := rand.Intn(maximumAttribute)
-- 
2.43.0


From f45fa044ef8c78a13c86ffc84e76bf9856eb7003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 51/90] fix: decision trees use the last attribute left

---
 trees/id3.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 332fb63..524f649 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -222,8 +222,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 
 	// If there are no more Attributes left to split on,
 	// return a DecisionTreeLeaf with the majority class
-	cols, _ := from.Size()
-	if cols == 2 {
+	if len(base.NonClassAttributes(from)) == 0 {
 		ret := &DecisionTreeNode{
 			LeafNode,
 			nil,
-- 
2.43.0


From 118942b157d9bdb03332adb5f996e5ff947b7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:46 +0000
Subject: [PATCH 52/90] fix: gain ratio divides the information gain by the
 entropy of the split

---
 trees/gr.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/trees/gr.go b/trees/gr.go
index 46577f5..9773083 100644
--- a/trees/gr.go
+++ b/trees/gr.go
@@ -53,17 +53,24 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 
 	// Compute the information gain for each attribute
 	for _, s := range consideredAttributes {
-		var informationGain float64
-		var localEntropy float64
+		var proposedClassDist map[string]map[string]int
 		var splitVal float64
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
-			localEntropy, splitVal = getNumericAttributeEntropy(f, fAttr)
+			_, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitVal, 1) {
+				// Every value is the same, there's nothing to split
+				continue
+			}
+			proposedClassDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
-			proposedClassDist := base.GetClassDistributionAfterSplit(f, s)
-			localEntropy = getSplitEntropy(proposedClassDist)
+			proposedClassDist = base.GetClassDistributionAfterSplit(f, s)
+		}
+		informationGain := baseEntropy - getSplitEntropy(proposedClassDist)
+		// Splitting on a single value gains nothing
+		informationGainRatio := 0.0
+		if len(proposedClassDist) > 1 {
+			informationGainRatio = informationGain / getIntrinsicValue(proposedClassDist)
 		}
-		informationGain = baseEntropy - localEntropy
-		informationGainRatio := informationGain / localEntropy
 		if informationGainRatio > maxRatio {
 			maxRatio = informationGainRatio
 			selectedAttribute = s
@@ -74,3 +81,15 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 	// Pick the one which maximises IG
 	return &DecisionTreeRule{selectedAttribute, selectedVal}
 }
+
+// getIntrinsicValue determines the entropy of the proposed split itself,
+// regardless of the classes
+func getIntrinsicValue(s map[string]map[string]int) float64 {
+	splitDist := make(map[string]int)
+	for a := range s {
+		for c := range s[a] {
+			splitDist[a] += s[a][c]
+		}
+	}
+	return getBaseEntropy(splitDist)
+}
-- 
2.43.0


From c7d97262571e8f3e75a3c97a0e3692feb7936275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 53/90] fix: prune each branch of a tree with the rows it
 predicts

---
 trees/id3.go | 108 +++++++++++++++++++--------------------------------
 1 file changed, 41 insertions(+), 67 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 524f649..7ae4fca 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -321,17 +321,16 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 		return
 	}
 
-	// Recursively prune children of this node
-	sub := base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
-	for k := range d.Children {
-		if sub[k] == nil {
-			continue
-		}
-		subH, subV := sub[k].Size()
-		if subH == 0 || subV == 0 {
-			continue
-		}
-		d.Children[k].Prune(sub[k])
+	// Recursively prune children of this node, each with the
+	// rows it makes the predictions for
+	sub := make(map[string][]int)
+	_, rows := using.Size()
+	for i := 0; i < rows; i++ {
+		k := d.branchFor(using, i)
+		sub[k] = append(sub[k], i)
+	}
+	for k := range sub {
+		d.Children[k].Prune(base.NewInstancesViewFromVisible(using, sub[k], using.AllAttributes()))
 	}
 
 	// Get a baseline accuracy
@@ -369,6 +368,35 @@ func (d *DecisionTreeNode) closestChild(classVar string) string {
 	return bestChild
 }
 
+// branchFor returns the name of the child which a row belongs to.
+func (d *DecisionTreeNode) branchFor(what base.FixedDataGrid, rowNo int) string {
+	splitVal := d.SplitRule.SplitVal
+	at := d.SplitRule.SplitAttr
+	ats, err := what.GetAttribute(at)
+	if err != nil {
+		panic(err)
+	}
+
+	var classVar string
+	if _, ok := ats.GetAttribute().(*base.FloatAttribute); ok {
+		// If it's a numeric Attribute (e.g. FloatAttribute) check that
+		// the value of the current node is greater than the old one
+		classVal := base.UnpackBytesToFloat(what.Get(ats, rowNo))
+		if classVal > splitVal {
+			classVar = "1"
+		} else {
+			classVar = "0"
+		}
+	} else {
+		classVar = ats.GetAttribute().GetStringFromSysVal(what.Get(ats, rowNo))
+	}
+	if _, ok := d.Children[classVar]; ok {
+		return classVar
+	}
+	// Suspicious of this
+	return d.closestChild(classVar)
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
@@ -386,34 +414,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				predictions.Set(classAttrSpec, rowNo, classAttr.GetSysValFromString(cur.Class))
 				break
 			} else {
-				splitVal := cur.SplitRule.SplitVal
-				at := cur.SplitRule.SplitAttr
-				ats, err := what.GetAttribute(at)
-				if err != nil {
-					//predictions.Set(classAttrSpec, rowNo, classAttr.GetSysValFromString(cur.Class))
-					//break
-					panic(err)
-				}
-
-				var classVar string
-				if _, ok := ats.GetAttribute().(*base.FloatAttribute); ok {
-					// If it's a numeric Attribute (e.g. FloatAttribute) check that
-					// the value of the current node is greater than the old one
-					classVal := base.UnpackBytesToFloat(what.Get(ats, rowNo))
-					if classVal > splitVal {
-						classVar = "1"
-					} else {
-						classVar = "0"
-					}
-				} else {
-					classVar = ats.GetAttribute().GetStringFromSysVal(what.Get(ats, rowNo))
-				}
-				if next, ok := cur.Children[classVar]; ok {
-					cur = next
-				} else {
-					// Suspicious of this
-					cur = cur.Children[cur.closestChild(classVar)]
-				}
+				cur = cur.Children[cur.branchFor(what, rowNo)]
 			}
 		}
 		return true, nil
@@ -465,34 +466,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				sort.Sort(results)
 				break
 			} else {
-				splitVal := cur.SplitRule.SplitVal
-				at := cur.SplitRule.SplitAttr
-				ats, err := what.GetAttribute(at)
-				if err != nil {
-					//predictions.Set(classAttrSpec, rowNo, classAttr.GetSysValFromString(cur.Class))
-					//break
-					panic(err)
-				}
-
-				var classVar string
-				if _, ok := ats.GetAttribute().(*base.FloatAttribute); ok {
-					// If it's a numeric Attribute (e.g. FloatAttribute) check that
-					// the value of the current node is greater than the old one
-					classVal := base.UnpackBytesToFloat(what.Get(ats, rowNo))
-					if classVal > splitVal {
-						classVar = "1"
-					} else {
-						classVar = "0"
-					}
-				} else {
-					classVar = ats.GetAttribute().GetStringFromSysVal(what.Get(ats, rowNo))
-				}
-				if next, ok := cur.Children[classVar]; ok {
-					cur = next
-				} else {
-					// Suspicious of this
-					cur = cur.Children[cur.closestChild(classVar)]
-				}
+				cur = cur.Children[cur.branchFor(what, rowNo)]
 			}
 		}
 		return true, nil
-- 
2.43.0


From 0d0e94eb7ba28b9ac61a06b62f43794503225fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 54/90] fix: CART classification trees without a split predict
 the most frequent label

---
 trees/cart_classifier.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index daf6a29..89b0f01 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -192,13 +192,6 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 // Stop If depth reaches maxDepth or nodes are pure
 func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []int64, labels []int64, upperNode classifierNode, criterion string, maxDepth int64, depth int64) (classifierNode, error) {
 
-	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
-	depth++
-
-	if maxDepth != -1 && depth > maxDepth {
-		return upperNode, nil
-	}
-
 	numFeatures := len(data[0])
 	var bestGini, origGini float64
 	var err error
@@ -207,6 +200,15 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	if err != nil {
 		return upperNode, err
 	}
+	// Without a split, both sides get the same label
+	upperNode.RightLabel = upperNode.LeftLabel
+
+	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
+	depth++
+
+	if maxDepth != -1 && depth > maxDepth {
+		return upperNode, nil
+	}
 
 	bestGini = origGini
 
-- 
2.43.0


From 0879439d5716953c6b84e58a0ed6e80f29d72e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 55/90] fix: CART regression trees without a split predict the
 mean

---
 trees/cart_regressor.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 69ae9d6..98655ca 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -179,13 +179,6 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 // Recursive function - stops if maxDepth is reached or nodes are pure
 func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []float64, upperNode regressorNode, criterion string, maxDepth int64, depth int64) (regressorNode, error) {
 
-	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
-	depth++
-
-	if depth > maxDepth && maxDepth != -1 {
-		return upperNode, nil
-	}
-
 	numFeatures := len(data[0])
 	var bestLoss, origLoss float64
 	var err error
@@ -193,6 +186,15 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 	if err != nil {
 		return upperNode, err
 	}
+	// Without a split, both sides get the same prediction
+	upperNode.RightPred = upperNode.LeftPred
+
+	// Ensure that we have not reached maxDepth. maxDepth =-1 means split until nodes are pure
+	depth++
+
+	if depth > maxDepth && maxDepth != -1 {
+		return upperNode, nil
+	}
 
 	bestLoss = origLoss
 
-- 
2.43.0


From 1cadc7a6be6529bc2aff056858a7b3aa6d86b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:17 +0000
Subject: [PATCH 56/90] fix: isolation trees without a split have the path
 length of their leaf

---
 trees/isolation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trees/isolation.go b/trees/isolation.go
index 3f83c90..dcaf44c 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -81,6 +81,8 @@ func buildTree(data [][]float64, upperNode regressorNode, depth int, maxDepth in
 	upperNode.isNodeNeeded = true
 	if (depth > maxDepth) || (len(data) <= 1) || !checkData(data) {
 		upperNode.isNodeNeeded = false
+		// Only used if this is the whole tree
+		upperNode.LeftPred = float64(len(data))
 		return upperNode
 	}
 
@@ -154,6 +156,13 @@ func (iForest *IsolationForest) Fit(X base.FixedDataGrid) {
 
 // Calculate the path length to reach a leaf node for a datapoint. Outliers have smaller path lengths than standard data points.
 func pathLength(tree regressorNode, instance []float64, path float64) float64 {
+	if !tree.isNodeNeeded {
+		// The whole tree is a single leaf
+		if tree.LeftPred <= 1 {
+			return path
+		}
+		return path + cFactor(int(tree.LeftPred))
+	}
 	path++
 
 	if instance[tree.Feature] <= tree.Threshold {
-- 
2.43.0


From e2e12413e2fcedae86226be6cbe22ce8f9272d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 57/90] fix: bagged prediction reports a member's error

---
 meta/bagging.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index f509463..d9d55db 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -135,6 +135,7 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	// Create workers to process the predictions
 	processpipe := make(chan int, n)
 	var processwait sync.WaitGroup
+	var predictErr error // The first failure, guarded by the lock
 	for i := 0; i < n; i++ {
 		processwait.Add(1)
 		go func() {
@@ -142,7 +143,15 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 				if i, ok := <-processpipe; ok {
 					c := b.Models[i]
 					l := b.generatePredictionInstances(i, from)
-					v, _ := c.Predict(l)
+					v, err := c.Predict(l)
+					if err != nil {
+						b.lock.Lock()
+						if predictErr == nil {
+							predictErr = err
+						}
+						b.lock.Unlock()
+						continue
+					}
 					votes <- v
 				} else {
 					processwait.Done()
@@ -160,6 +169,9 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	processwait.Wait() // Predictors all finished processing
 	close(votes)       // Close the vote channel and allow it to drain
 	votingwait.Wait()  // All the votes are in
+	if predictErr != nil {
+		return nil, predictErr
+	}
 
 	// Generate the overall consensus
 	ret := base.GeneratePredictionVector(from)
-- 
2.43.0


From 16d12097f3f3ea452f3e4c667bb918b63578d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 58/90] fix: micro precision counts predictions of classes
 without reference rows

---
 evaluation/confusion.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index eb71faf..d86d511 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -136,7 +136,9 @@ func GetMicroPrecision(c ConfusionMatrix) float64 {
 	falsePositives := 0.0
 	for k := range c {
 		truePositives += GetTruePositives(k, c)
-		falsePositives += GetFalsePositives(k, c)
+		// Every other prediction for these rows is a false positive of its
+		// class, which needn't be a reference class
+		falsePositives += GetFalseNegatives(k, c)
 	}
 	return truePositives / (truePositives + falsePositives)
 }
-- 
2.43.0


From b1d5ee1ef2d732915bdfa16d13e4daa07b05f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:24 +0000
Subject: [PATCH 59/90] fix: DBSCAN keeps points which were taken for noise
 before their cluster was found

---
 clustering/dbscan.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 82861f1..3eb97fe 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -96,15 +96,14 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 					neighbours = neighbours.Or(neighbours, newNeighbours)
 					reset = true
 				}
-			} else {
-				continue
 			}
+			// A point visited before may still be taken for noise
 			if clustered.Bit(i) == 0 {
 				clusterMap[c] = append(clusterMap[c], i)
 				clustered = clustered.SetBit(clustered, i, 1)
 			}
 			if reset {
-				i = 0
+				i = -1 // Start again from the first point
 			}
 		}
 	}
@@ -118,8 +117,7 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		neighbours := big.NewInt(0)
 		neighbours = regionQuery(i, neighbours, dist, params.Eps)
 		if BitCount(neighbours) < params.MinCount {
-			// Noise, cluster 0
-			clustered = clustered.Or(clustered, neighbours)
+			// Noise, unless a later cluster reaches it
 			continue
 		}
 		c = c + 1 // Increment cluster count
-- 
2.43.0


From ea3651beb6bd18227a6b4d12c49d87d50be9b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 60/90] fix: cluster maps with empty clusters compare like
 others

---
 clustering/clustering.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clustering/clustering.go b/clustering/clustering.go
index 3636d5b..974f3d9 100644
--- a/clustering/clustering.go
+++ b/clustering/clustering.go
@@ -80,6 +80,11 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	// Check that after transformation, key contains the same points
 	arraysEqual := func(a1, a2 []int) bool {
 
+		// No point appears twice, so arrays of different sizes differ
+		if len(a1) != len(a2) {
+			return false
+		}
+
 		cnt := make(map[int]bool)
 		for _, a := range a1 {
 			cnt[a] = true
@@ -96,6 +101,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	}
 	newMap := ClusterMap(make(map[int][]int))
 	for cOld := range other {
+		if len(other[cOld]) == 0 {
+			// Has no points to be re-labelled by
+			continue
+		}
 		cNew := clusterIdMap[cOld]
 		if !arraysEqual(ref[cNew], other[cOld]) {
 			return false, fmt.Errorf("Re-labelled cluster %d => %d doesn't contain the same points (%d, %d)", cOld, cNew, ref[cNew], other[cOld])
-- 
2.43.0


From 5ef464184949e9c5cdc1c066b67448bc1bea7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:29 +0000
Subject: [PATCH 61/90] fix: fitting a mixture survives a component without
 observations

---
 clustering/em.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustering/em.go b/clustering/em.go
index 70894df..a0d3994 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -313,6 +313,9 @@ func where(X *mat.Dense, y mat.Vector, target int) *mat.Dense {
 			rows++
 		}
 	}
+	if rows == 0 {
+		return &mat.Dense{} // No observations
+	}
 	X_i := mat.NewDense(rows, n_feats, result)
 	return X_i
 }
-- 
2.43.0


From d1c6506fb6505051492b0ca17e5cfd0bef413a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 62/90] fix: training keeps small weights and connections set
 between updates

---
 neural/network.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural/network.go b/neural/network.go
index 5119133..3109b54 100644
--- a/neural/network.go
+++ b/neural/network.go
@@ -77,6 +77,10 @@ func (n *Network) SetWeight(src, target int, v float64) {
 	src--
 	target--
 	n.weights.Set(target, src, v)
+	if n.origWeights != nil {
+		// Connections may be made or cut after training has started
+		n.origWeights.Set(target, src, v)
+	}
 }
 
 // SetBias sets the bias at a given neuron (counted from 1).
@@ -139,7 +143,7 @@ func (n *Network) UpdateWeights(out, err *mat.Dense, learnRate float64) {
 		if target == source {
 			return v
 		}
-		if math.Abs(n.origWeights.At(target, source)) > 0.005 {
+		if n.origWeights.At(target, source) != 0 {
 			return v + learnRate*out.At(source, 0)*err.At(target, 0)
 		}
 		return 0.00
-- 
2.43.0


From ee8addca9d6ff40ffca645010f04f1645494c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 63/90] fix: the softplus rectifier's slope is that of the
 softplus

---
 neural/funcs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/funcs.go b/neural/funcs.go
index 48bf3db..344f8b7 100644
--- a/neural/funcs.go
+++ b/neural/funcs.go
@@ -22,5 +22,5 @@ var Linear NeuralFunction = NeuralFunction{
 // https://www.wikiwand.com/en/Rectifier_(neural_networks)
 var SoftplusRectifier NeuralFunction = NeuralFunction{
 	func(v float64) float64 { return math.Log(1 + math.Exp(v)) },
-	func(v float64) float64 { return v * (1 - v) },
+	func(v float64) float64 { return 1 - math.Exp(-v) },
 }
-- 
2.43.0


From 8cdcf168d3b4c6b4dc62849e205ef023e013672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:57 +0000
Subject: [PATCH 64/90] fix: layered networks accept query attributes which
 equal those trained on

---
 neural/layered.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index c1daee9..e38cf66 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -64,6 +64,20 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	return insts
 }
 
+// nodeOf finds the node standing for an Attribute, which need only
+// be equal to the one seen in training.
+func (m *MultiLayerNet) nodeOf(attr base.Attribute) int {
+	if cIndex, ok := m.attrs[attr]; ok {
+		return cIndex
+	}
+	for a, cIndex := range m.attrs {
+		if a.Equals(attr) {
+			return cIndex
+		}
+	}
+	panic("Can't resolve the Attribute!")
+}
+
 // Predict uses the underlying network to produce predictions for the
 // class variables of X.
 //
@@ -113,6 +127,12 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 	// Resolve the output Attributespecs
 	outputAs := base.ResolveAttributes(ret, outputAttrs)
 
+	// Find the nodes which stand for these Attributes
+	inputNodes := make([]int, len(inputAs))
+	for i, as := range inputAs {
+		inputNodes[i] = m.nodeOf(as.GetAttribute())
+	}
+
 	// Map over each input row
 	insts.MapOverRows(inputAs, func(row [][]byte, rc int) (bool, error) {
 		// Clear the activation vector
@@ -121,11 +141,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		// Build the activation vector
 		for i, vb := range row {
-			if cIndex, ok := m.attrs[inputAs[i].GetAttribute()]; !ok {
-				panic("Can't resolve the Attribute!")
-			} else {
-				a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
-			}
+			a.Set(inputNodes[i], 0, base.UnpackBytesToFloat(vb))
 		}
 		// Robots, activate!
 		m.network.Activate(a, layers)
@@ -133,7 +149,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		// Decide which class to set
 		if floatMode > 0 {
 			for _, as := range outputAs {
-				cIndex := m.attrs[as.GetAttribute()]
+				cIndex := m.nodeOf(as.GetAttribute())
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
 			}
 		} else {
-- 
2.43.0


From ad8a6020ab0d72ecbc0f693b2868ea756966601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 65/90] fix: a layered network can be fitted again

---
 neural/layered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural/layered.go b/neural/layered.go
index e38cf66..03c9b31 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -204,6 +204,10 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 		hiddenSize += a
 	}
 
+	// Forget any earlier training set
+	m.attrs = make(map[base.Attribute]int)
+	m.classAttrCount = 0
+
 	// Enumerate the Attributes
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
-- 
2.43.0


From a3f2d0336b339c9220741d1f7a0c22151530d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:18 +0000
Subject: [PATCH 66/90] fix: layered networks with hidden layers predict from
 their output nodes

---
 neural/layered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index 03c9b31..c6c036d 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -217,7 +217,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 		m.attrs[a] = attrCounter
 		trainingAttrs[a] = attrCounter
 	}
-	m.classAttrOffset = attrCounter + 1
+	m.classAttrOffset = attrCounter + 1 + hiddenSize
 	for _, a := range classAttrsVec {
 		attrCounter++
 		m.attrs[a] = attrCounter + hiddenSize
-- 
2.43.0


From 7a714a94a83341088c4853b4649f81bcfd23ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 67/90] fix: layered networks predict the second of two classes

---
 neural/layered.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural/layered.go b/neural/layered.go
index c6c036d..b92bd1c 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -163,6 +163,12 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				}
 			}
 			maxIndex -= m.classAttrOffset
+			if m.classAttrCount == 1 {
+				// Two classes share one node
+				if maxVal > 0.5 {
+					maxIndex = 1
+				}
+			}
 			ret.Set(outputAs[0], rc, base.PackU64ToBytes(uint64(maxIndex)))
 		}
 		return true, nil
-- 
2.43.0


From a38d6627277566f90e111f4790e009ea462d1cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 68/90] fix: class attributes of a filtered grid come in the
 grid's order

---
 base/filtered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/filtered.go b/base/filtered.go
index 90f9c66..d3b839d 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -149,7 +149,7 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 // by the Filter.
 func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for a := range l.classAttrs {
+	for _, a := range l.AllAttributes() {
 		if l.classAttrs[a] {
 			ret = append(ret, a)
 		}
-- 
2.43.0


From fa268e3d0ca8b423b8577eaad00e22410767f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 69/90] fix: the perceptron writes each row's label to that row

---
 perceptron/average.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index b4d0249..0c8e554 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -132,7 +132,7 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		if result > 0.0 {
 			ret.Set(classSpec, i, base.PackU64ToBytes(1))
 		} else {
-			ret.Set(classSpec, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0})
+			ret.Set(classSpec, i, base.PackU64ToBytes(0))
 		}
 	}
 
-- 
2.43.0


From 4a85a77e0a6ef5a7f9f404ae2167c5fa6d109b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:40 +0000
Subject: [PATCH 70/90] fix: the perceptron matches attributes by name when
 predicting

---
 perceptron/average.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index 0c8e554..21685fe 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -104,21 +104,14 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		panic("Cannot call Predict on an untrained AveragePerceptron")
 	}
 
-	data := processData(what)
-
 	allAttrs := base.CheckCompatible(what, p.TrainingData)
 	if allAttrs == nil {
 		// Don't have the same Attributes
 		return nil
 	}
 
-	// Remove the Attributes which aren't numeric
-	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
-		if fAttr, ok := a.(*base.FloatAttribute); ok {
-			allNumericAttrs = append(allNumericAttrs, fAttr)
-		}
-	}
+	// The weights follow the order of the training data's Attributes
+	data := processAttributes(what, base.NonClassFloatAttributes(p.TrainingData))
 
 	ret := base.GeneratePredictionVector(what)
 	classAttr := ret.AllClassAttributes()[0]
@@ -140,12 +133,16 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 }
 
 func processData(x base.FixedDataGrid) instances {
+	return processAttributes(x, base.NonClassFloatAttributes(x))
+}
+
+// processAttributes reads the values of numericAttrs, in that order.
+func processAttributes(x base.FixedDataGrid, numericAttrs []base.Attribute) instances {
 	_, rows := x.Size()
 
 	result := make(instances, rows)
 
-	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(x)
+	// Resolve the numeric non-class Attributes
 	numericAttrSpecs := base.ResolveAttributes(x, numericAttrs)
 
 	// Retrieve class Attributes
-- 
2.43.0


From 668e9e54bc38b05d56453cb9a887cf6a27e86314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 71/90] fix: splitting data into training and test rows leaves
 the data in order

---
 base/util_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 96774eb..c7019aa 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -379,7 +379,7 @@ func DecomposeOnAttributeValues(inst FixedDataGrid, at Attribute) map[string]Fix
 func InstancesTrainTestSplit(src FixedDataGrid, prop float64) (FixedDataGrid, FixedDataGrid) {
 	trainingRows := make([]int, 0)
 	testingRows := make([]int, 0)
-	src = Shuffle(src)
+	src = LazyShuffle(src)
 
 	// Create the return structure
 	_, rows := src.Size()
-- 
2.43.0


From f8dd8c3bd376e9b6d9132f871472c2a57914e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 72/90] fix: linear classifiers match attributes by name when
 predicting

---
 linear_models/linearsvc.go | 22 ++++++++++++++++++++--
 linear_models/logistic.go  |  8 ++++++--
 linear_models/util.go      | 17 +++++++++++++++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 6166198..e242109 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -111,6 +111,7 @@ func (p *LinearSVCParams) convertToNativeFormat() *Parameter {
 type LinearSVC struct {
 	param *Parameter
 	model *Model
+	attrs []base.Attribute
 	Param *LinearSVCParams
 }
 
@@ -173,6 +174,7 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 	labelVec := convertInstancesToLabelVec(X)
 
 	// Train
+	lr.attrs = base.NonClassFloatAttributes(X)
 	prob := NewProblem(problemVec, labelVec, 0)
 	lr.param.c_param.nr_weight = C.int(len(weightVec))
 	lr.param.c_param.weight_label = &(weightClasses[0])
@@ -196,8 +198,10 @@ func (lr *LinearSVC) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
 
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
-	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
+	numericAttrSpecs, err := resolveFeatures(X, lr.attrs)
+	if err != nil {
+		return nil, err
+	}
 
 	// Allocate row storage
 	row := make([]float64, len(numericAttrSpecs))
@@ -288,6 +292,14 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 		return base.DescribeError("Error writing model", err)
 	}
 
+	// The order of the features, when it's known
+	if lr.attrs != nil {
+		err = writer.WriteAttributesForKey(writer.Prefix(prefix, "ATTRIBUTES"), lr.attrs)
+		if err != nil {
+			return base.DescribeError("Error writing attributes", err)
+		}
+	}
+
 	return nil
 }
 
@@ -327,6 +339,12 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	if err != nil {
 		return base.DescribeError("Unable to reload the model", err)
 	}
+
+	// Older files don't have the order of the features
+	lr.attrs, err = reader.GetAttributesForKey(reader.Prefix(prefix, "ATTRIBUTES"))
+	if err != nil {
+		lr.attrs = nil
+	}
 	return nil
 }
 
diff --git a/linear_models/logistic.go b/linear_models/logistic.go
index 96c3206..10816d7 100644
--- a/linear_models/logistic.go
+++ b/linear_models/logistic.go
@@ -9,6 +9,7 @@ import (
 type LogisticRegression struct {
 	param *Parameter
 	model *Model
+	attrs []base.Attribute
 }
 
 func NewLogisticRegression(penalty string, C float64, eps float64) (*LogisticRegression, error) {
@@ -30,6 +31,7 @@ func NewLogisticRegression(penalty string, C float64, eps float64) (*LogisticReg
 func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
 	problemVec := convertInstancesToProblemVec(X)
 	labelVec := convertInstancesToLabelVec(X)
+	lr.attrs = base.NonClassFloatAttributes(X)
 	prob := NewProblem(problemVec, labelVec, 0)
 	lr.model = Train(prob, lr.param)
 	return nil
@@ -46,8 +48,10 @@ func (lr *LogisticRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid,
 	ret := base.GeneratePredictionVector(X)
 	classAttrSpecs := base.ResolveAttributes(ret, classAttrs)
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
-	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
+	numericAttrSpecs, err := resolveFeatures(X, lr.attrs)
+	if err != nil {
+		return nil, err
+	}
 
 	// Allocate row storage
 	row := make([]float64, len(numericAttrSpecs))
diff --git a/linear_models/util.go b/linear_models/util.go
index ac6b2ce..4fb311a 100644
--- a/linear_models/util.go
+++ b/linear_models/util.go
@@ -58,6 +58,23 @@ func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 	return problemVec
 }
 
+// resolveFeatures finds the Attributes a model was trained with in X, in the
+// order the model knows them. Models which don't record them use X's order.
+func resolveFeatures(X base.FixedDataGrid, trained []base.Attribute) ([]base.AttributeSpec, error) {
+	if trained == nil {
+		return base.ResolveAttributes(X, base.NonClassFloatAttributes(X)), nil
+	}
+	ret := make([]base.AttributeSpec, len(trained))
+	for i, a := range trained {
+		spec, err := X.GetAttribute(a)
+		if err != nil {
+			return nil, base.WrapError(err)
+		}
+		ret[i] = spec
+	}
+	return ret, nil
+}
+
 func convertInstancesToLabelVec(X base.FixedDataGrid) []float64 {
 	// Get the class Attributes
 	classAttrs := X.AllClassAttributes()
-- 
2.43.0


From 84a20cbe59e62be13812c4bb43af0214819091d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:49 +0000
Subject: [PATCH 73/90] fix: linear classifiers see negative features when
 predicting

---
 linear_models/liblinear.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 47e7456..d13ff38 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -90,7 +90,7 @@ func Predict(model *Model, x []float64) float64 {
 func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	n_ele := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			n_ele++
 		}
 	}
@@ -99,7 +99,7 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	c_x := make([]C.struct_feature_node, n_ele)
 	j := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			c_x[j].index = C.int(i + 1)
 			c_x[j].value = C.double(x[i])
 			j++
-- 
2.43.0


From db7c2043dfeb0317dab3b3b525059388b5241582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:05 +0000
Subject: [PATCH 74/90] fix: PCA centres the rows it transforms and leaves the
 caller's matrix alone

---
 pca/pca.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pca/pca.go b/pca/pca.go
index c6c6837..d283c8d 100644
--- a/pca/pca.go
+++ b/pca/pca.go
@@ -8,6 +8,7 @@ import (
 type PCA struct {
 	Num_components int
 	svd            *mat.SVD
+	mean           *mat.Dense
 }
 
 // Number of components. 0 - by default, use number of features as number of components
@@ -24,8 +25,8 @@ func (pca *PCA) FitTransform(X *mat.Dense) *mat.Dense {
 // Fit PCA model
 func (pca *PCA) Fit(X *mat.Dense) *PCA {
 	// Mean to input data
-	M := mean(X)
-	X = matrixSubVector(X, M)
+	pca.mean = mean(X)
+	X = matrixSubVector(mat.DenseCopyOf(X), pca.mean)
 
 	// Get SVD decomposition from data
 	pca.svd = &mat.SVD{}
@@ -48,6 +49,9 @@ func (pca *PCA) Transform(X *mat.Dense) *mat.Dense {
 
 	num_samples, num_features := X.Dims()
 
+	// Centre the data like the data the model was fitted with
+	X = matrixSubVector(mat.DenseCopyOf(X), pca.mean)
+
 	vTemp := new(mat.Dense)
 	pca.svd.VTo(vTemp)
 	//Compute to full data
-- 
2.43.0


From 4ec3e4c291e2fc38efe61e9a1c0e4f7edf68ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 75/90] fix: data frame conversion keeps every digit and takes
 missing values

---
 base/dataframe_go.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index b5a186f..c0e9f69 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,13 +1,30 @@
 package base
 
 import (
-	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 
 	"github.com/rocketlaunchr/dataframe-go"
 )
 
+// isStringSeries decides whether a series becomes a CategoricalAttribute. Its values
+// only tell if it's not one of the usual kinds, and any of them may be missing.
+func isStringSeries(col dataframe.Series) bool {
+	switch col.(type) {
+	case *dataframe.SeriesString:
+		return true
+	case *dataframe.SeriesFloat64, *dataframe.SeriesInt64:
+		return false
+	}
+	for i := 0; i < col.NRows(); i++ {
+		if v := col.Value(i); v != nil {
+			return reflect.TypeOf(v).Kind() == reflect.String
+		}
+	}
+	return false
+}
+
 // ConvertDataFrameToInstances converts a DataFrame-go dataframe object to Golearn Fixed Data Grid. Allows for compabitibility between dataframe and golearn's ML models.
 // df is the dataframe Object. classAttrIndex is the index of the class Attribute in the data.i
 func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) FixedDataGrid {
@@ -20,7 +37,7 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 
 	for i := range names {
 		col := df.Series[i]
-		if reflect.TypeOf(col.Value(0)).Kind() == reflect.String {
+		if isStringSeries(col) {
 			attrs[i] = new(CategoricalAttribute)
 			attrs[i].SetName(names[i])
 		} else {
@@ -48,14 +65,19 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 
 			var val string
 			switch v := col.Value(i).(type) {
+			case nil:
+				// A missing label is empty, a missing number isn't a number
+				if _, ok := attrs[j].(*FloatAttribute); ok {
+					val = strconv.FormatFloat(math.NaN(), 'g', -1, 64)
+				}
 			case string:
 				val = v
 			case int64:
 				val = strconv.FormatInt(v, 10)
 			case float64:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(float64(v), 'g', -1, 64)
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0


From e9c9daf1a2332cb9c2dcab77b1615391a2c0fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 76/90] fix: parsing CSV without data rows is an error, not a
 panic

---
 base/csv.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 88a9c7e..74271af 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -212,6 +212,10 @@ func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 1 {
+		// The Attributes' types come from the first data row
+		return nil, fmt.Errorf("no data rows")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
@@ -260,6 +264,10 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 1 {
+		// The Attributes' types come from the first data row
+		return nil, fmt.Errorf("no data rows")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
@@ -298,6 +306,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 	if hasHeaders {
 		rowCount--
 	}
+	if rowCount < 1 {
+		// The Attributes' types come from the first data row
+		return nil, fmt.Errorf("no data rows")
+	}
 
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
-- 
2.43.0


From 3bb60c2964f38a76701a9aa672b2dee916e08880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:35 +0000
Subject: [PATCH 77/90] fix: ARFF lines of any length, count and number of
 fields are read or reported

---
 base/arff.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 64b9e4a..6255373 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -6,6 +6,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"runtime"
 	"strings"
@@ -84,16 +85,13 @@ func ParseARFFGetRows(filepath string) (int, error) {
 
 	counting := false
 	count := 0
-	scanner := bufio.NewScanner(f)
+	scanner := newLineScanner(f)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) == 0 {
 			continue
 		}
 		if counting {
-			if line[0] == '@' {
-				continue
-			}
 			if line[0] == '%' {
 				continue
 			}
@@ -108,9 +106,19 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return 0, err
+	}
 	return count, nil
 }
 
+// newLineScanner returns a Scanner over the lines of r, however long they are.
+func newLineScanner(r io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32)
+	return scanner
+}
+
 // ParseARFFGetAttributes returns the set of Attributes represented in this ARFF
 func ParseARFFGetAttributes(filepath string) []Attribute {
 	var ret []Attribute
@@ -121,7 +129,7 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 	}
 	defer f.Close()
 
-	scanner := bufio.NewScanner(f)
+	scanner := newLineScanner(f)
 	for scanner.Scan() {
 		var attr Attribute
 		line := scanner.Text()
@@ -173,6 +181,9 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		attr.SetName(fields[1])
 		ret = append(ret, attr)
 	}
+	if err := scanner.Err(); err != nil {
+		panic(err)
+	}
 
 	maxPrecision, err := ParseCSVEstimateFilePrecision(filepath)
 	if err != nil {
@@ -199,7 +210,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}()
 
-	scanner := bufio.NewScanner(r)
+	scanner := newLineScanner(r)
 	reading := false
 	specs := ResolveAttributes(u, attrs)
 	for scanner.Scan() {
@@ -217,6 +228,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 				} else if err != nil {
 					return err
 				}
+				if len(r) != len(specs) {
+					return fmt.Errorf("Expected %d values on line '%s'", len(specs), line)
+				}
 				for i, v := range r {
 					v = strings.TrimSpace(v)
 					if a, ok := specs[i].attr.(*CategoricalAttribute); ok {
@@ -237,7 +251,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 // ParseDenseARFFToInstances parses the dense ARFF File into a FixedDataGrid
@@ -259,6 +273,9 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 
 	// Get the Attributes we want
 	attrs := ParseARFFGetAttributes(filepath)
+	if len(attrs) == 0 {
+		return nil, fmt.Errorf("No Attributes in '%s'", filepath)
+	}
 
 	// Allocate return value
 	ret = NewDenseInstances()
-- 
2.43.0


From 04296cd298d1ec29efd7b5db231dce905f92aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:13 +0000
Subject: [PATCH 78/90] fix: a failed write of data sets and models is reported

---
 base/arff.go                | 29 +++++++++++++++++++----------
 base/serialize_instances.go | 25 ++++++++++++++++++-------
 ensemble/multisvc.go        |  3 +--
 ensemble/randomforest.go    |  4 +++-
 linear_models/linearsvc.go  | 12 ++++++------
 meta/bagging.go             |  4 +++-
 naive/bernoulli_nb.go       |  4 +++-
 trees/random.go             |  9 +++++----
 8 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 6255373..a1990ab 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -29,14 +29,18 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 
 // SerializeInstancesToDenseARFFWithAttributes writes the given FixedDataGrid to a
 // densely-formatted ARFF file with the header Attributes in the order given.
-func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
+func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) (err error) {
 
 	// Open output file
 	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	return SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation)
 
@@ -44,7 +48,9 @@ func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []
 
 func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
 	// Write @relation header
-	fmt.Fprintf(w, "@relation %s\n\n", relation)
+	if _, err := fmt.Fprintf(w, "@relation %s\n\n", relation); err != nil {
+		return err
+	}
 
 	// Get all Attribute specifications
 	attrs := ResolveAttributes(inst, rawAttrs)
@@ -57,21 +63,24 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 			vals := a.GetValues()
 			t = fmt.Sprintf("{%s}", strings.Join(vals, ", "))
 		}
-		fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t)
+		if _, err := fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t); err != nil {
+			return err
+		}
+	}
+	if _, err := fmt.Fprint(w, "\n@data\n"); err != nil {
+		return err
 	}
-	fmt.Fprint(w, "\n@data\n")
 
 	buf := make([]string, len(attrs))
-	inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
+	return inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
-		fmt.Fprint(w, strings.Join(buf, ","))
-		fmt.Fprint(w, "\n")
+		if _, err := fmt.Fprint(w, strings.Join(buf, ","), "\n"); err != nil {
+			return false, err
+		}
 		return true, nil
 	})
-
-	return nil
 }
 
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index a55e7cb..3f42448 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -24,19 +24,23 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't flush file: %s", err)
 	}
-	f.Close()
+	if err = f.Close(); err != nil {
+		return fmt.Errorf("Couldn't close file: %s", err)
+	}
 	return nil
 }
 
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
-func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
+func SerializeInstancesToCSV(inst FixedDataGrid, path string) (err error) {
 	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
 	defer func() {
 		f.Sync()
-		f.Close()
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	return SerializeInstancesToCSVStream(inst, f)
@@ -60,21 +64,28 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	for i, v := range allAttrs {
 		headerRow[i] = v.GetName()
 	}
-	w.Write(headerRow)
+	if err := w.Write(headerRow); err != nil {
+		return err
+	}
 
 	specs := ResolveAttributes(inst, allAttrs)
 	curRow := make([]string, colCount)
-	inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
+	err := inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
 		for i, v := range row {
 			attr := allAttrs[i]
 			curRow[i] = attr.GetStringFromSysVal(v)
 		}
-		w.Write(curRow)
+		if err := w.Write(curRow); err != nil {
+			return false, err
+		}
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
 
 // DeserializeInstancesFromTarReader returns DenseInstances from a FunctionalTarReader with the name prefix.
diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 2f29780..6fadea7 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -101,8 +101,7 @@ func (m *MultiLinearSVC) Save(filePath string) error {
 	if err != nil {
 		return fmt.Errorf("Unable to Save(): %v", err)
 	}
-	serializer.Close()
-	return err
+	return serializer.Close()
 }
 
 func (m *MultiLinearSVC) SaveWithPrefix(serializer *base.ClassifierSerializer, prefix string) error {
diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 0d9492a..3aa292e 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -78,7 +78,9 @@ func (f *RandomForest) Save(filePath string) error {
 	}
 
 	err = f.SaveWithPrefix(writer, "model")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index e242109..9982c31 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -245,11 +245,11 @@ func (lr *LinearSVC) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	fmt.Printf("writer: %v", writer)
-	return lr.SaveWithPrefix(writer, "")
+	err = lr.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -287,7 +287,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model parameters", err)
 	}
-	writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
+	err = writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
diff --git a/meta/bagging.go b/meta/bagging.go
index d9d55db..5c9894a 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -219,7 +219,9 @@ func (b *BaggedModel) Save(filePath string) error {
 		return err
 	}
 	err = b.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 4d0dfd4..8f4cb5f 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -76,7 +76,9 @@ func (nb *BernoulliNBClassifier) Save(filePath string) error {
 		return err
 	}
 	err = nb.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/trees/random.go b/trees/random.go
index 4d20cca..6915161 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -95,10 +95,11 @@ func (rt *RandomTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	return rt.SaveWithPrefix(writer, "")
+	err = rt.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs this model to a file with a prefix.
-- 
2.43.0


From 51df3c7883fbc2e56cf5c91f72ae28011819ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:17 +0000
Subject: [PATCH 79/90] fix: LinearSVC removes its temporary files and reports
 when they cannot be written

---
 linear_models/linearsvc.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 9982c31..b18cdb7 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -270,6 +270,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	err = Export(lr.model, f.Name())
@@ -327,11 +328,17 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	}
 
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
+	if err != nil {
+		return base.DescribeError("Error creating temporary file", err)
+	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
-	f.WriteAt(modelBytes, 0)
+	if _, err = f.WriteAt(modelBytes, 0); err != nil {
+		return base.DescribeError("Error writing temporary file", err)
+	}
 
 	lr.model = &Model{}
 
-- 
2.43.0


From 032194b6dbce378f44a8e9d7b33d5b24748f189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:43 +0000
Subject: [PATCH 80/90] fix: the optimised KNN measures distances in double
 precision

---
 knn/knn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.h b/knn/knn.h
index e785b99..99c67b5 100644
--- a/knn/knn.h
+++ b/knn/knn.h
@@ -4,7 +4,7 @@
 #include <stdint.h>
 
 struct dist {
-    float dist;
+    double dist;
     uint32_t p;
 };
 
-- 
2.43.0


From a0b612e0f85292bc1e06253488051e4a7d71566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:39 +0000
Subject: [PATCH 81/90] fix: trees: the split between two numeric values has
 one on each side

---
 trees/entropy.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index 66e5148..e032aa8 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -122,7 +122,6 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 
 	minSplitEntropy := math.Inf(1)
 	minSplitVal := math.Inf(1)
-	prevVal := math.NaN()
 	prevInd := 0
 
 	splitDist := [2][]int{make([]int, numClasses), make([]int, numClasses)}
@@ -132,21 +131,21 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 	}
 
 	// Consider each possible function
-	for i := 0; i < len(refs)-1; {
-		val := refs[i].val + refs[i+1].val
-		val /= 2
-		if val == prevVal {
-			i++
+	for i := 0; i < len(refs)-1; i++ {
+		if refs[i].val == refs[i+1].val {
 			continue
 		}
-		// refs is sorted, so we only need to update values that are
-		// bigger than prevVal, but are lower than val
-		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
-			splitDist[0][refs[j].class]++
-			splitDist[1][refs[j].class]--
-			prevInd++
+		// The values up to refs[i] are at most val, even if val has been rounded
+		val := refs[i].val/2 + refs[i+1].val/2
+		if val < refs[i].val || val >= refs[i+1].val {
+			val = refs[i].val
+		}
+		// refs is sorted, so we only need to move the values which are
+		// at most val and haven't been moved before
+		for ; prevInd <= i; prevInd++ {
+			splitDist[0][refs[prevInd].class]++
+			splitDist[1][refs[prevInd].class]--
 		}
-		prevVal = val
 		splitEntropy := getSplitEntropyFast(splitDist)
 		if splitEntropy < minSplitEntropy {
 			minSplitEntropy = splitEntropy
-- 
2.43.0


From 8e1684ba1a28d37551301d11db08e55828c0aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:59 +0000
Subject: [PATCH 82/90] fix: trees: CART splits lie between the two values they
 divide

---
 trees/cart_classifier.go |  2 +-
 trees/cart_regressor.go  |  2 +-
 trees/cart_utils.go      | 10 ++++++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index 89b0f01..3fa3872 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -238,7 +238,7 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 		// Iterate over all possible thresholds for that feature
 		for j := 0; j < len(unique)-1; j++ {
 
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := splitBetween(unique[j], unique[j+1])
 			// Ensure that same split has not been made before
 			if validate(tree.triedSplits, int64(i), threshold) {
 				// We need to split data from fresh when considering new feature for the first time.
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 98655ca..827701f 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -222,7 +222,7 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 		var leftY, rightY []float64
 
 		for j := 0; j < len(unique)-1; j++ {
-			threshold := (unique[j] + unique[j+1]) / 2
+			threshold := splitBetween(unique[j], unique[j+1])
 			if validate(tree.triedSplits, int64(i), threshold) {
 				if firstTime {
 					left, right, leftY, rightY = regressorCreateSplit(sortData, int64(i), sortY, threshold)
diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 251dee9..83f658c 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -17,6 +17,16 @@ func findUnique(data []float64) []float64 {
 	return unique
 }
 
+// Threshold halfway between two consecutive values, which has the lower one, but not the upper one, below it.
+func splitBetween(lower, upper float64) float64 {
+	threshold := lower/2 + upper/2
+	if threshold <= lower || threshold > upper {
+		// There is no number in between
+		return upper
+	}
+	return threshold
+}
+
 // Isolate only the feature being considered for splitting. Reduces the complexity in managing splits.
 func getFeature(data [][]float64, feature int64) []float64 {
 	var featureVals []float64
-- 
2.43.0


From 09ba3c42cfa8151fa10297c9bb8f8aea4046b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:12 +0000
Subject: [PATCH 83/90] fix: a layered net whose outputs all underflow still
 predicts one of the classes

---
 neural/layered.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural/layered.go b/neural/layered.go
index b92bd1c..f3bdd27 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -153,7 +153,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
 			}
 		} else {
-			maxIndex := 0
+			maxIndex := m.classAttrOffset
 			maxVal := 0.0
 			for i := m.classAttrOffset; i < m.classAttrOffset+m.classAttrCount; i++ {
 				val := a.At(i, 0)
-- 
2.43.0


From 00573ce26b3fca25b4ab5fa4d62fc4ba8d7531cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:21 +0000
Subject: [PATCH 84/90] fix: of two entries under one key in a model file the
 most recent is read, as documented

---
 base/serialize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/serialize.go b/base/serialize.go
index bb39139..d73c90b 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -58,8 +58,8 @@ func (f *FunctionalTarReader) GetNamedFile(name string) ([]byte, error) {
 				}
 			}
 
+			// A later entry replaces this one
 			returnCandidate = ret
-			break
 		}
 	}
 	if returnCandidate == nil {
-- 
2.43.0


From 35a549e4a667a2ab3ef7fa9bcd0943f026e1536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:21 +0000
Subject: [PATCH 85/90] fix: writing a data set without its rows leaves the
 rest of the model file writable

---
 base/serialize_instances.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 3f42448..f4c708d 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -296,6 +296,10 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// Now write the dimensions of the dataset
 	attrCount, rowCount := inst.Size()
+	if !includeData {
+		// Only the structure is written
+		rowCount = 0
+	}
 	hdr = &tar.Header{
 		Name: p("DIMS"),
 		Size: 16,
@@ -335,12 +339,14 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// First, estimate the amount of data we'll need...
 	dataLength := int64(0)
-	inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
-		for _, v := range val {
-			dataLength += int64(len(v))
-		}
-		return true, nil
-	})
+	if includeData {
+		inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
+			for _, v := range val {
+				dataLength += int64(len(v))
+			}
+			return true, nil
+		})
+	}
 
 	// Then write the header
 	hdr = &tar.Header{
-- 
2.43.0


From 5c232e39ce597fb9f34f174183675c942b215fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:44 +0000
Subject: [PATCH 86/90] fix: writing a filtered data set writes all of its
 attributes, not as many as the unfiltered one has

---
 base/serialize_instances.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index f4c708d..cb7d5c4 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -51,12 +51,12 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	// Create the CSV writer
 	w := csv.NewWriter(f)
 
-	colCount, _ := inst.Size()
-
 	// Write out Attribute headers
 	// Start with the regular Attributes
 	normalAttrs := NonClassAttributes(inst)
 	classAttrs := inst.AllClassAttributes()
+	// Size() may count the Attributes of an underlying FixedDataGrid
+	colCount := len(normalAttrs) + len(classAttrs)
 	allAttrs := make([]Attribute, colCount)
 	n := copy(allAttrs, normalAttrs)
 	copy(allAttrs[n:], classAttrs)
@@ -295,7 +295,11 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 	tw.Flush()
 
 	// Now write the dimensions of the dataset
-	attrCount, rowCount := inst.Size()
+	classAttrs := inst.AllClassAttributes()
+	normalAttrs := NonClassAttributes(inst)
+	// Size() may count the Attributes of an underlying FixedDataGrid
+	attrCount := len(normalAttrs) + len(classAttrs)
+	_, rowCount := inst.Size()
 	if !includeData {
 		// Only the structure is written
 		rowCount = 0
@@ -316,8 +320,6 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 	}
 
 	// Write the ATTRIBUTES files
-	classAttrs := inst.AllClassAttributes()
-	normalAttrs := NonClassAttributes(inst)
 	if err := writeAttributesToFilePart(classAttrs, tw, p("CATTRS")); err != nil {
 		return fmt.Errorf("Could not write CATTRS: %s", err)
 	}
-- 
2.43.0


From 29b2448b2535738e4846330bcc07d2ea2b6017eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:31 +0000
Subject: [PATCH 87/90] fix: a saved linear model keeps its weights exactly,
 with as many digits as a float64 has

---
 linear_models/linear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index e435db7..60b501a 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -2621,14 +2621,14 @@ int save_model(const char *model_file_name, const struct model *model_)
 
 	fprintf(fp, "nr_feature %d\n", nr_feature);
 
-	fprintf(fp, "bias %.16g\n", model_->bias);
+	fprintf(fp, "bias %.17g\n", model_->bias);
 
 	fprintf(fp, "w\n");
 	for(i=0; i<w_size; i++)
 	{
 		int j;
 		for(j=0; j<nr_w; j++)
-			fprintf(fp, "%.16g ", model_->w[i*nr_w+j]);
+			fprintf(fp, "%.17g ", model_->w[i*nr_w+j]);
 		fprintf(fp, "\n");
 	}
 
-- 
2.43.0


From c366238afc9c4b96fcebc7224480bbe75c15f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:19 +0000
Subject: [PATCH 88/90] fix: a printed confusion matrix has a column for every
 predicted class

---
 evaluation/confusion.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index d86d511..d490d7a 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -214,10 +214,22 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 		fmt.Fprintf(w, "%s\t", k)
 		ref = append(ref, k)
 	}
+	// Classes which were predicted, but aren't a reference class
+	pred := ref
+	seen := make(map[string]bool)
+	for _, v := range ref {
+		for k := range c[v] {
+			if _, ok := c[k]; !ok && !seen[k] {
+				fmt.Fprintf(w, "%s\t", k)
+				pred = append(pred, k)
+				seen[k] = true
+			}
+		}
+	}
 	fmt.Fprintf(w, "\n")
 
 	fmt.Fprintf(w, "---------------\t")
-	for _, v := range ref {
+	for _, v := range pred {
 		for t := 0; t < len(v); t++ {
 			fmt.Fprintf(w, "-")
 		}
@@ -227,7 +239,7 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 
 	for _, v := range ref {
 		fmt.Fprintf(w, "%s\t", v)
-		for _, v2 := range ref {
+		for _, v2 := range pred {
 			fmt.Fprintf(w, "%d\t", c[v][v2])
 		}
 		fmt.Fprintf(w, "\n")
-- 
2.43.0


From 215bf4131aff6726a28152800ee18c27862bc8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:19 +0000
Subject: [PATCH 89/90] fix: CART trees and isolation forests match attributes
 when predicting

---
 trees/cart_classifier.go |  8 +++++---
 trees/cart_regressor.go  | 11 ++++++-----
 trees/cart_utils.go      | 19 ++++++++++++++++---
 trees/isolation.go       | 10 ++++++----
 4 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index 3fa3872..234a609 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -37,6 +37,7 @@ type CARTDecisionTreeClassifier struct {
 	maxDepth    int64
 	labels      []int64
 	triedSplits [][]float64
+	attrs       []base.Attribute
 }
 
 // Convert a series of labels to frequency map for efficient impurity calculation
@@ -173,7 +174,8 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 	var emptyNode classifierNode
 	var err error
 
-	data := convertInstancesToProblemVec(X)
+	tree.attrs = base.NonClassFloatAttributes(X)
+	data := convertInstancesToProblemVec(X, tree.attrs)
 	y, err := classifierConvertInstancesToLabelVec(X)
 	if err != nil {
 		return err
@@ -376,7 +378,7 @@ func classifierPredictSingle(tree classifierNode, instance []float64) int64 {
 // Given test data, return predictions for every datapoint. calls classifierPredictFromNode
 func (tree *CARTDecisionTreeClassifier) Predict(X_test base.FixedDataGrid) []int64 {
 	root := *tree.RootNode
-	test := convertInstancesToProblemVec(X_test)
+	test := convertInstancesToProblemVec(X_test, tree.attrs)
 	return classifierPredictFromNode(root, test)
 }
 
@@ -396,7 +398,7 @@ func classifierPredictFromNode(tree classifierNode, test [][]float64) []int64 {
 // Calls classifierEvaluateFromNode
 func (tree *CARTDecisionTreeClassifier) Evaluate(test base.FixedDataGrid) (float64, error) {
 	rootNode := *tree.RootNode
-	xTest := convertInstancesToProblemVec(test)
+	xTest := convertInstancesToProblemVec(test, tree.attrs)
 	yTest, err := classifierConvertInstancesToLabelVec(test)
 	if err != nil {
 		return 0, err
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 827701f..03fe295 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -37,6 +37,7 @@ type CARTDecisionTreeRegressor struct {
 	criterion   string
 	maxDepth    int64
 	triedSplits [][]float64
+	attrs       []base.Attribute
 }
 
 // Find average
@@ -161,7 +162,8 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 	var emptyNode regressorNode
 	var err error
 
-	data := regressorConvertInstancesToProblemVec(X)
+	tree.attrs = base.NonClassFloatAttributes(X)
+	data := regressorConvertInstancesToProblemVec(X, tree.attrs)
 	y, err := regressorConvertInstancesToLabelVec(X)
 	if err != nil {
 		return err
@@ -348,7 +350,7 @@ func regressorPredictSingle(tree regressorNode, instance []float64) float64 {
 // First converts input data into usable format, and then calls regressorPredictFromNode
 func (tree *CARTDecisionTreeRegressor) Predict(X_test base.FixedDataGrid) []float64 {
 	root := *tree.RootNode
-	test := regressorConvertInstancesToProblemVec(X_test)
+	test := regressorConvertInstancesToProblemVec(X_test, tree.attrs)
 	return regressorPredictFromNode(root, test)
 }
 
@@ -364,14 +366,13 @@ func regressorPredictFromNode(tree regressorNode, test [][]float64) []float64 {
 }
 
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
-func regressorConvertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
+func regressorConvertInstancesToProblemVec(X base.FixedDataGrid, numericAttrs []base.Attribute) [][]float64 {
 	// Allocate problem array
 	_, rows := X.Size()
 	problemVec := make([][]float64, rows)
 
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
-	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
+	numericAttrSpecs := resolveFeatures(X, numericAttrs)
 
 	// Convert each row
 	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 83f658c..ec1d1fd 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -49,15 +49,28 @@ func validate(triedSplits [][]float64, feature int64, threshold float64) bool {
 	return true
 }
 
+// resolveFeatures finds the numeric Attributes a tree was trained with in X, in the order the tree knows them.
+// If X doesn't have them, its own are taken in their place.
+func resolveFeatures(X base.FixedDataGrid, trained []base.Attribute) []base.AttributeSpec {
+	ret := make([]base.AttributeSpec, len(trained))
+	for i, a := range trained {
+		spec, err := X.GetAttribute(a)
+		if err != nil {
+			return base.ResolveAttributes(X, base.NonClassFloatAttributes(X))
+		}
+		ret[i] = spec
+	}
+	return ret
+}
+
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
-func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
+func convertInstancesToProblemVec(X base.FixedDataGrid, numericAttrs []base.Attribute) [][]float64 {
 	// Allocate problem array
 	_, rows := X.Size()
 	problemVec := make([][]float64, rows)
 
 	// Retrieve numeric non-class Attributes
-	numericAttrs := base.NonClassFloatAttributes(X)
-	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
+	numericAttrSpecs := resolveFeatures(X, numericAttrs)
 
 	// Convert each row
 	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
diff --git a/trees/isolation.go b/trees/isolation.go
index dcaf44c..5553ddc 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -12,6 +12,7 @@ type IsolationForest struct {
 	maxDepth int
 	subSpace int
 	trees    []regressorNode
+	attrs    []base.Attribute
 }
 
 // Select A random feature for splitting from the data.
@@ -138,7 +139,8 @@ func NewIsolationForest(nTrees int, maxDepth int, subSpace int) IsolationForest
 
 // Fit the data based on hyperparameters and data.
 func (iForest *IsolationForest) Fit(X base.FixedDataGrid) {
-	data := preprocessData(X)
+	iForest.attrs = base.NonClassFloatAttributes(X)
+	data := preprocessData(X, iForest.attrs)
 	nTrees := iForest.nTrees
 	subSpace := iForest.subSpace
 	maxDepth := iForest.maxDepth
@@ -215,7 +217,7 @@ func anomalyScore(instance []float64, forest []regressorNode, n int) float64 {
 
 // Return anamoly score for all datapoints.
 func (iForest *IsolationForest) Predict(X base.FixedDataGrid) []float64 {
-	data := preprocessData(X)
+	data := preprocessData(X, iForest.attrs)
 
 	var preds []float64
 	for _, instance := range data {
@@ -226,8 +228,8 @@ func (iForest *IsolationForest) Predict(X base.FixedDataGrid) []float64 {
 }
 
 // Extract data in the form of floats. Used in Fit and predict. Note that class labels are treated as normal data because Isolation Forest is unsupervised.
-func preprocessData(X base.FixedDataGrid) [][]float64 {
-	data := convertInstancesToProblemVec(X)
+func preprocessData(X base.FixedDataGrid, attrs []base.Attribute) [][]float64 {
+	data := convertInstancesToProblemVec(X, attrs)
 	class, err := regressorConvertInstancesToLabelVec(X)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 90142832019fd1f90038facb7c143952ea94eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:18 +0000
Subject: [PATCH 90/90] fix: ChiMerge keeps apart intervals that differ
 overwhelmingly

---
 filters/chimerge_funcs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index ad7cbc7..382d3ad 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -58,6 +58,11 @@ func chiSquaredPercentile(k int, x float64) float64 {
 		// The density is unbounded at zero and can't be integrated numerically
 		return math.Erf(math.Sqrt(x / 2))
 	}
+	// Nearly nothing of the distribution lies beyond this, and the steps
+	// of the integration have to stay small
+	if limit := float64(k) + 10*math.Sqrt(2*float64(k)) + 20; x > limit {
+		x = limit
+	}
 	steps := 32
 	intervals := 4 * steps
 	w := x / (4.0 * float64(steps))
-- 
2.43.0


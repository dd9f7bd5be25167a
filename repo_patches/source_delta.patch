From 11a423315636e694422b6bf997798b8d71cfc24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 01/22] fix: order NaN values totally in the indexes and value
 filters

The less functions compared values with operators, so a NaN broke the trees'
order: it could not be found, filtered by, retracted or replaced.
---
 internal/database/snapshot.go |  9 ++++++++-
 internal/index/compare.go     | 22 ++++++++--------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 224227d..e83a58d 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"cmp"
 	"iter"
 	"time"
 
@@ -123,13 +124,19 @@ func filterByV(seq iter.Seq[Datum], v Value) iter.Seq[Datum] {
 
 // valuesEqual compares two values with the same instant semantics the indexes use:
 // Inst values are equal when they denote the same millisecond, matching how they are
-// stored and compared in the int tree. All other value types compare by ==.
+// stored and compared in the int tree, and a Float NaN equals itself. All other values
+// compare by ==.
 func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
 		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
+	af, aok := a.(Float)
+	bf, bok := b.(Float)
+	if aok && bok {
+		return cmp.Compare(af, bf) == 0
+	}
 	return a == b
 }
 
diff --git a/internal/index/compare.go b/internal/index/compare.go
index fa853b0..f063b90 100644
--- a/internal/index/compare.go
+++ b/internal/index/compare.go
@@ -15,7 +15,7 @@ func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.A > d2.A:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
@@ -26,9 +26,9 @@ func LessAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 		less = true
 	case d1.A > d2.A:
 		less = false
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	default:
 		less = d1.E < d2.E
@@ -47,16 +47,16 @@ func LessAEV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.E > d2.E:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
 
 func LessVAE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	case d1.A < d2.A:
 		less = true
@@ -143,14 +143,8 @@ func CompareAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 }
 
 func CompareV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
-	switch {
-	case d1.V < d2.V:
-		diff = -1
-	case d1.V > d2.V:
-		diff = 1
-	default:
-		diff = 0
-	}
+	// The operators would leave NaN unordered, while the trees require a total order.
+	diff = cmp.Compare(d1.V, d2.V)
 	return
 }
 
-- 
2.43.0


From e022df2a35aa08d0be717bc20bc13957e580cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 02/22] fix: scan negative floats

Scans of an entity's or attribute's float values started at 0, so negative
values were not found by select, first or count, and not replaced when a
cardinality one attribute was asserted anew.
---
 internal/index/index.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/index/index.go b/internal/index/index.go
index b202605..5032f37 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -151,6 +151,9 @@ var instValuer TypeValuer[int64] = TypeValuer[int64]{
 	devaluer: func(value Value) (v int64) { return time.Time(value.(Inst)).UnixMilli() },
 }
 
+// minFloat sorts before every other float, so is where scans of any values start.
+var minFloat = math.NaN()
+
 func (idx *CompositeIndex) Find(datum Datum) (extant bool) {
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
@@ -310,11 +313,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -391,11 +394,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -471,11 +474,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From 51be1878f600a2cf356d42b954cb2c45f6e84bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 03/22] fix: list negative values in all of a value-ordered
 index

The scan started at value 0, which in a VAE tree follows the negative values.
---
 internal/index/scan.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/index/scan.go b/internal/index/scan.go
index be2db70..93efacb 100644
--- a/internal/index/scan.go
+++ b/internal/index/scan.go
@@ -3,12 +3,13 @@ package index
 import (
 	"cmp"
 	"iter"
+	"math"
 
 	. "github.com/dball/destructive/internal/types"
 )
 
 // CompareAll treats every datum as equal, so a Select driven by it yields the
-// entire tree (in its native sort order) starting from the zero datum.
+// entire tree (in its native sort order) starting from the given datum.
 func CompareAll[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 	return 0
 }
@@ -62,8 +63,8 @@ func mergeEAV(seqs ...iter.Seq[Datum]) iter.Seq[Datum] {
 // values stored in them.
 func (idx *CompositeIndex) All() iter.Seq[Datum] {
 	strings := idx.strings.Select(CompareAll[string], stringValuer.valuer, TypedDatum[string]{})
-	ints := idx.ints.Select(CompareAll[int64], intValuer.valuer, TypedDatum[int64]{})
+	ints := idx.ints.Select(CompareAll[int64], intValuer.valuer, TypedDatum[int64]{V: math.MinInt64})
 	uints := idx.uints.Select(CompareAll[uint64], refValuer.valuer, TypedDatum[uint64]{})
-	floats := idx.floats.Select(CompareAll[float64], floatValuer.valuer, TypedDatum[float64]{})
+	floats := idx.floats.Select(CompareAll[float64], floatValuer.valuer, TypedDatum[float64]{V: minFloat})
 	return mergeEAV(strings, mapSeq(ints, idx.reint), mapSeq(uints, idx.reuint), floats)
 }
-- 
2.43.0


From 4fb8328b0b1069fcca960475abbbd3cfc6372f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 04/22] fix: select nothing, not a nil sequence, for an unknown
 attribute

Ranging over the nil sequence panicked, though the doc promises an empty
result.
---
 internal/index/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/index/index.go b/internal/index/index.go
index 5032f37..86d7c97 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -266,6 +266,7 @@ func mapSeq(seq iter.Seq[Datum], f func(Datum) Datum) iter.Seq[Datum] {
 // the right index with the right partial. An unsupported pairing yields an empty
 // result rather than an error.
 func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Datum]) {
+	seq = func(yield func(Datum) bool) {}
 	if p == E {
 		strings := idx.strings.Select(CompareE[string], stringValuer.valuer, TypedDatum[string]{E: datum.E})
 		ints := idx.ints.Select(CompareE[int64], intValuer.valuer, TypedDatum[int64]{E: datum.E})
-- 
2.43.0


From 01bcb9d6eb8e8006d3774e296b8396c71a19792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 05/22] fix: match nothing for unresolvable references and
 mistyped values in queries

A reference that did not resolve, a reference as the value, or a lookup as the
attribute was taken to match any datum, and a value of another type than its
attribute's panicked in the index.
---
 internal/database/snapshot.go | 66 ++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index e83a58d..cc910c6 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/dball/destructive/internal/index"
+	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
 )
 
@@ -76,7 +77,10 @@ func (snapshot *indexSnapshot) selectWith(a access, match Datum) (datums iter.Se
 
 // Select returns the datums matching the claim.
 func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return func(yield func(Datum) bool) {}
+	}
 	return snapshot.selectWith(snapshot.access(match), match)
 }
 
@@ -84,7 +88,10 @@ func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
 // exact existence check against eav (a btree lookup, no allocation); other shapes
 // fall back to testing whether the access path yields anything.
 func (snapshot *indexSnapshot) Has(claim Claim) bool {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return false
+	}
 	if match.E != 0 && match.A != 0 && match.V != nil {
 		return snapshot.eav.Find(match)
 	}
@@ -98,7 +105,10 @@ func (snapshot *indexSnapshot) Has(claim Claim) bool {
 // directly through the typed indexes (which tally without materializing values);
 // value-filtered and unconstrained shapes are counted by enumeration.
 func (snapshot *indexSnapshot) Count(claim Claim) (count int) {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return
+	}
 	a := snapshot.access(match)
 	if a.all || a.filterV != nil {
 		for range snapshot.selectWith(a, match) {
@@ -157,10 +167,13 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = snapshot.idents[a]
+	case LookupRef:
+		datum.A = snapshot.resolveLookupRef(a)
 	default:
 		return
 	}
-	if snapshot.attrs[datum.A].Unique == 0 {
+	attr := snapshot.attrs[datum.A]
+	if attr.Unique == 0 || !sys.ValidValue(attr.Type, datum.V) {
 		return
 	}
 	match, ok := snapshot.ave.First(index.AV, datum)
@@ -170,24 +183,61 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum) {
+// resolveClaim resolves the claim's references to a datum to match, in which zero fields
+// match any value. If this returns false, no datum matches the claim because one of its
+// references does not resolve, or because its value is not of its attribute's type.
+func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum, ok bool) {
 	switch e := claim.E.(type) {
+	case nil:
 	case ID:
 		match.E = e
 	case Ident:
 		match.E = snapshot.idents[e]
+		if match.E == 0 {
+			return
+		}
 	case LookupRef:
 		match.E = snapshot.resolveLookupRef(e)
+		if match.E == 0 {
+			return
+		}
+	default:
+		return
 	}
 	switch a := claim.A.(type) {
+	case nil:
 	case ID:
 		match.A = a
 	case Ident:
 		match.A = snapshot.idents[a]
+		if match.A == 0 {
+			return
+		}
+	case LookupRef:
+		match.A = snapshot.resolveLookupRef(a)
+		if match.A == 0 {
+			return
+		}
 	}
-	value, ok := claim.V.(Value)
-	if ok {
-		match.V = value
+	switch v := claim.V.(type) {
+	case nil:
+	case Ident:
+		id := snapshot.idents[v]
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case LookupRef:
+		id := snapshot.resolveLookupRef(v)
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case Value:
+		match.V = v
+	default:
+		return
 	}
+	ok = match.A == 0 || match.V == nil || sys.ValidValue(snapshot.attrs[match.A].Type, match.V)
 	return
 }
-- 
2.43.0


From af523eede4776c563a0b77c607f73d8d628036ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 06/22] fix: do not panic on lookups of mistyped values, and
 resolve nested lookups when writing

---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index ac22379..2c88559 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -474,10 +474,12 @@ func (db *indexDatabase) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = db.idents[a]
+	case LookupRef:
+		datum.A = db.resolveLookupRef(a)
 	default:
 		return
 	}
-	if db.attrUniques[datum.A] == 0 {
+	if db.attrUniques[datum.A] == 0 || !sys.ValidValue(db.attrTypes[datum.A], datum.V) {
 		return
 	}
 	match, ok := db.ave.First(index.AV, datum)
-- 
2.43.0


From a1dd44f391e7a4be913bc61230a5459fa72ec89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 07/22] fix: resolve the idents of the uniqueness settings

Their ident datums were missing from the ident table.
---
 internal/sys/sys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index 3379624..bf4bb45 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -78,6 +78,8 @@ var Attrs map[ID]Attr = map[ID]Attr{
 var Idents map[Ident]ID = map[Ident]ID{
 	Ident("sys/db/ident"):                DbIdent,
 	Ident("sys/attr/unique"):             AttrUnique,
+	Ident("sys/attr/unique/identity"):    AttrUniqueIdentity,
+	Ident("sys/attr/unique/value"):       AttrUniqueValue,
 	Ident("sys/tx/at"):                   TxAt,
 	Ident("sys/attr/type"):               AttrType,
 	Ident("sys/attr/type/ref"):           AttrTypeRef,
-- 
2.43.0


From 269ebd8011713e2db4f963050d93290997cbc034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 08/22] fix: data races between reads, snapshots and schema
 writes

Concurrent reads cloned the same trees, which changes them, and a write that
declared attributes changed the types map that snapshots read.
---
 internal/database/database.go | 14 +++++++++++---
 internal/index/index.go       |  6 ++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 2c88559..bbebb6d 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -23,7 +23,7 @@ type indexDatabase struct {
 	attrCardManies map[ID]Void
 	idents         map[Ident]ID
 
-	lock   sync.RWMutex
+	lock   sync.Mutex
 	logger log.Logger
 	nextID ID
 }
@@ -79,8 +79,9 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 }
 
 func (db *indexDatabase) Read() (snapshot Snapshot) {
-	db.lock.RLock()
-	defer db.lock.RUnlock()
+	// Cloning the indexes changes them, so readers must exclude one another as well.
+	db.lock.Lock()
+	defer db.lock.Unlock()
 	snapshot = db.read()
 	return
 }
@@ -346,6 +347,13 @@ CLAIMS:
 		for id, ident := range identCreates {
 			db.idents[ident] = id
 		}
+		if len(attrChanges) != 0 {
+			// Snapshots read the attribute types without the lock, so these are replaced, not changed.
+			db.attrTypes = maps.Clone(db.attrTypes)
+			eav.SetAttrTypes(db.attrTypes)
+			aev.SetAttrTypes(db.attrTypes)
+			ave.SetAttrTypes(db.attrTypes)
+		}
 		for id, attr := range attrChanges {
 			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
diff --git a/internal/index/index.go b/internal/index/index.go
index 86d7c97..a5b6b9a 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -84,6 +84,8 @@ type Index interface {
 	// Clone returns a copy of the index. Both instances are hereafter safe to change without affecting
 	// the other.
 	Clone() (clone Index)
+	// SetAttrTypes replaces the attribute types of this index, but not those of its clones.
+	SetAttrTypes(attrTypes map[ID]ID)
 }
 
 // CompositeIndex is an index of indexes of the discrete types.
@@ -519,3 +521,7 @@ func (idx *CompositeIndex) Clone() (clone Index) {
 	}
 	return
 }
+
+func (idx *CompositeIndex) SetAttrTypes(attrTypes map[ID]ID) {
+	idx.attrTypes = attrTypes
+}
-- 
2.43.0


From bb09e364f50243b71c44d3537732d8c47119c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 09/22] fix: retract entities only by resolvable constraints,
 and before the assertions

A retraction without constraints or by an id never issued was accepted, a
rejected retraction's response had no snapshot, a request's assertions about
the retracted entity were lost, and the retraction claims could overwrite
the caller's array of claims.
---
 internal/database/database.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index bbebb6d..20c6aef 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -107,16 +107,23 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	identDeletes := map[ID]Ident{}
-	claims := req.Claims
+	claims := make([]Claim, 0, len(req.Claims))
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
 		for _, retraction := range req.Retractions {
+			if len(retraction.Constraints) == 0 {
+				res.Error = NewError("database.write.unconstrainedRetraction", "retraction", retraction)
+				res.Snapshot = db.read()
+				return
+			}
 			var id ID
 			for ref := range retraction.Constraints {
 				var refID ID
 				switch e := ref.(type) {
 				case ID:
-					refID = e
+					if e < db.nextID {
+						refID = e
+					}
 				case Ident:
 					refID = db.idents[e]
 				case LookupRef:
@@ -125,11 +132,13 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				switch {
 				case refID == 0:
 					res.Error = NewError("database.write.invalidE", "retraction", retraction, "ref", ref)
+					res.Snapshot = db.read()
 					return
 				case id == 0:
 					id = refID
 				case id != refID:
 					res.Error = NewError("database.write.inconsistentE", "retraction", retraction, "ref", ref, "id", id)
+					res.Snapshot = db.read()
 					return
 				}
 			}
@@ -143,6 +152,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 			}
 		}
 	}
+	// The retractions precede the request's claims so that the assertions obtain.
+	claims = append(claims, req.Claims...)
 	lastID := db.nextID
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
-- 
2.43.0


From 1c4bc93fbf3ce5ee97da161ba9adab00427ba051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 10/22] fix: resolve temp ids by their identity values before
 enforcing invariants

The invariants and the response saw the ids allocated for temp ids rather than
those of the extant entities: redeclaring an attribute moved its ident to a new
entity and could give it another type, an entity could not assert two of its
identity values anew, a value unique value could not be asserted anew by its
own entity, tempids claiming the same new identity became two entities, and
uniqueness was not enforced within a request or for entities given by id.
---
 internal/database/database.go | 116 ++++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 40 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 20c6aef..6ad88b6 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -101,7 +101,6 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 }
 
 func (db *indexDatabase) Write(req Request) (res Response) {
-	rewrites := map[ID]ID{}
 	db.lock.Lock()
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
@@ -158,31 +157,28 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
 	data := make([]*Datum, 0, len(claims))
-CLAIMS:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
 		if res.Error != nil {
 			break
 		}
-		if !claim.Retract {
-			unique := db.attrUniques[datum.A]
-			if unique != 0 {
-				d, ok := db.ave.First(index.AV, *datum)
-				if ok {
-					switch unique {
-					case sys.AttrUniqueIdentity:
-						_, ok := rewrites[datum.E]
-						if ok {
-							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
-							break CLAIMS
-						} else {
-							rewrites[datum.E] = d.E
-						}
-					case sys.AttrUniqueValue:
-						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-						break CLAIMS
-					}
-				}
+		data = append(data, datum)
+	}
+	if res.Error == nil {
+		res.Error = db.resolveTempIDs(&res, claims, data)
+	}
+	if res.Error != nil {
+		data = nil
+	}
+	owners := db.ave.Clone()
+CLAIMS:
+	for i, datum := range data {
+		claim := claims[i]
+		if !claim.Retract && db.attrUniques[datum.A] != 0 {
+			owner := uniqueOwner(owners, *datum)
+			if owner != datum.E {
+				res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", owner)
+				break CLAIMS
 			}
 		}
 		// Enforce system invariants and maintain database caches.
@@ -266,7 +262,6 @@ CLAIMS:
 				attrChanges[datum.E] = attr
 			}
 		}
-		data = append(data, datum)
 	}
 	for id, attr := range attrChanges {
 		ident, ok := identCreates[id]
@@ -298,24 +293,6 @@ CLAIMS:
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
-			// TempIDs may have been assigned IDs that subsequently resolved to identity
-			// unique datum ids, so we rewrite them if so.
-			tempid, ok := claim.E.(TempID)
-			if ok {
-				id, ok := rewrites[datum.E]
-				if ok {
-					datum.E = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			tempid, ok = claim.V.(TempID)
-			if ok {
-				id, ok := rewrites[datum.V.(ID)]
-				if ok {
-					datum.V = id
-					res.TempIDs[tempid] = id
-				}
-			}
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
@@ -480,6 +457,65 @@ func (db *indexDatabase) evaluateClaim(res *Response, claim *Claim) (datum *Datu
 	return
 }
 
+// resolveTempIDs rewrites the ids allocated for temp ids in the data and the response to those
+// of the entities that the data's identity unique values denote, be they extant or other temp ids.
+func (db *indexDatabase) resolveTempIDs(res *Response, claims []Claim, data []*Datum) (err error) {
+	rewrites := map[ID]ID{}
+	resolve := func(id ID) ID {
+		for {
+			to, ok := rewrites[id]
+			if !ok {
+				return id
+			}
+			id = to
+		}
+	}
+	// Resolving a temp id that is an identity unique value may in turn resolve its entity.
+	for changed := true; changed; {
+		changed = false
+		ave := db.ave.Clone()
+		for i, datum := range data {
+			if claims[i].Retract || db.attrUniques[datum.A] != sys.AttrUniqueIdentity {
+				continue
+			}
+			owner, e := resolve(uniqueOwner(ave, *datum)), resolve(datum.E)
+			if owner == e {
+				continue
+			}
+			// The ids allocated for temp ids follow that of the transaction and all extant ids.
+			from, to := max(owner, e), min(owner, e)
+			if from <= res.ID {
+				err = NewError("database.write.uniqueValueImpossible", "datum", datum)
+				return
+			}
+			rewrites[from] = to
+			changed = true
+		}
+		for i, datum := range data {
+			datum.E = resolve(datum.E)
+			_, ok := claims[i].V.(TempID)
+			if ok {
+				datum.V = resolve(datum.V.(ID))
+			}
+		}
+	}
+	for tempID, id := range res.TempIDs {
+		res.TempIDs[tempID] = resolve(id)
+	}
+	return
+}
+
+// uniqueOwner returns the entity with the datum's unique value in the index, inserting the datum if none.
+func uniqueOwner(ave index.Index, datum Datum) (owner ID) {
+	extant, ok := ave.First(index.AV, datum)
+	if !ok {
+		ave.Insert(datum)
+		extant = datum
+	}
+	owner = extant.E
+	return
+}
+
 func (db *indexDatabase) allocateID() (id ID) {
 	id = db.nextID
 	db.nextID++
-- 
2.43.0


From e3df997d68c056ea1c0b5f196b7ebb94287f6252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 11/22] fix: retain the transaction when a value equal to the
 extant one is asserted anew

An instant that differs only below the millisecond or in its location was
compared with the operator, and so replaced by itself in a new transaction.
---
 internal/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 6ad88b6..a55f8a8 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -299,7 +299,7 @@ CLAIMS:
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
 					if ok {
-						if d.V == datum.V {
+						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
 							eav.Delete(d)
-- 
2.43.0


From 3d3419bfe32da009eeff80e5517688e3608cccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 12/22] fix: reject multiple values for a cardinality one
 attribute in a request

doc/architecture.md has the transactor reject these, while it kept the last.
---
 internal/database/database.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index a55f8a8..021c4d9 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -171,9 +171,20 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 		data = nil
 	}
 	owners := db.ave.Clone()
+	singles := make(map[Datum]Value, len(data))
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
+		_, many := db.attrCardManies[datum.A]
+		if !claim.Retract && !many {
+			ea := Datum{E: datum.E, A: datum.A}
+			v, ok := singles[ea]
+			if ok && !valuesEqual(v, datum.V) {
+				res.Error = NewError("database.write.multipleValues", "datum", datum, "v", v)
+				break CLAIMS
+			}
+			singles[ea] = datum.V
+		}
 		if !claim.Retract && db.attrUniques[datum.A] != 0 {
 			owner := uniqueOwner(owners, *datum)
 			if owner != datum.E {
-- 
2.43.0


From eaede696e583c7e4ad48c502015775abb7b61811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/22] fix: reject claims about system entities

Claims could change the idents of system entities that are not attributes and
record other datums about them, though the README has the system root reserved.
---
 internal/database/database.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 021c4d9..c8520cd 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -120,7 +120,7 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				var refID ID
 				switch e := ref.(type) {
 				case ID:
-					if e < db.nextID {
+					if e >= sys.FirstUserID && e < db.nextID {
 						refID = e
 					}
 				case Ident:
@@ -175,6 +175,10 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 CLAIMS:
 	for i, datum := range data {
 		claim := claims[i]
+		if datum.E < sys.FirstUserID {
+			res.Error = NewError("database.write.invalidE", "e", datum.E)
+			break CLAIMS
+		}
 		_, many := db.attrCardManies[datum.A]
 		if !claim.Retract && !many {
 			ea := Datum{E: datum.E, A: datum.A}
-- 
2.43.0


From 3876c3dda75246d0b34ffade03e3229d3e89059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 14/22] fix: keep the ident table in step with the ident datums

Changing an ident left the old one resolving, retracting an ident the entity
did not hold dropped its owner's, and an attribute could be declared while
retracting its ident.
---
 internal/database/database.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index c8520cd..b5d3917 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -105,7 +105,7 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	identDeletes := map[ID]Ident{}
+	identDeletes := map[Datum]Void{}
 	claims := make([]Claim, 0, len(req.Claims))
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
@@ -217,7 +217,7 @@ CLAIMS:
 					break CLAIMS
 				}
 				if claim.Retract {
-					identDeletes[datum.E] = ident
+					identDeletes[Datum{E: datum.E, V: datum.V}] = Void{}
 				} else {
 					identCreates[datum.E] = ident
 				}
@@ -284,6 +284,11 @@ CLAIMS:
 			res.Error = NewError("database.write.attrRequiresIdent", "attr", attr)
 			break
 		}
+		_, ok = identDeletes[Datum{E: id, V: String(ident)}]
+		if ok {
+			res.Error = NewError("database.write.attrIdentRetractDisallowed", "attr", attr)
+			break
+		}
 		attr.Ident = ident
 		attrChanges[id] = attr
 		if !sys.ValidAttrType(attr.Type) {
@@ -323,6 +328,9 @@ CLAIMS:
 							if ok {
 								ave.Delete(d)
 							}
+							if d.A == sys.DbIdent {
+								delete(db.idents, Ident(d.V.(String)))
+							}
 						}
 					}
 				}
@@ -332,24 +340,24 @@ CLAIMS:
 				if ok {
 					ave.Insert(*datum)
 				}
+				if datum.A == sys.DbIdent {
+					db.idents[Ident(datum.V.(String))] = datum.E
+				}
 			} else {
-				eav.Delete(*datum)
+				extant := eav.Delete(*datum)
 				aev.Delete(*datum)
 				_, ok := db.attrUniques[datum.A]
 				if ok {
 					ave.Delete(*datum)
 				}
+				if extant && datum.A == sys.DbIdent {
+					delete(db.idents, Ident(datum.V.(String)))
+				}
 			}
 		}
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
-		for _, ident := range identDeletes {
-			delete(db.idents, ident)
-		}
-		for id, ident := range identCreates {
-			db.idents[ident] = id
-		}
 		if len(attrChanges) != 0 {
 			// Snapshots read the attribute types without the lock, so these are replaced, not changed.
 			db.attrTypes = maps.Clone(db.attrTypes)
-- 
2.43.0


From d1e5c79180c62a314264446ca9ae46cbcee3d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 15/22] fix: ignore struct fields without attr tags

These were modelled as attributes without type or ident, so writing or finding
such a struct panicked or was rejected.
---
 internal/structs/models/models.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index d0c55f7..9f1519d 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -107,6 +107,10 @@ func Analyze(typ reflect.Type) (model StructModel, err error) {
 	attrFields := make([]AttrFieldModel, 0, n)
 	for i := range n {
 		fieldType := typ.Field(i)
+		_, ok := fieldType.Tag.Lookup("attr")
+		if !ok {
+			continue
+		}
 		attr, fieldErr := parseAttrField(fieldType)
 		if fieldErr != nil {
 			err = fieldErr
-- 
2.43.0


From ab8d896e9db56ed27646d8ea28dd9d71ecbc5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 16/22] fix: cache struct models safely

The analyzer assigned to a nil map when a type was invalid, cached only failures,
and would have raced between concurrent requests.
---
 internal/structs/models/models.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 9f1519d..0a5189b 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -4,6 +4,7 @@ package models
 import (
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
@@ -16,19 +17,22 @@ type Analyzer interface {
 }
 
 type cachingAnalyzer struct {
+	lock  sync.Mutex
 	types map[reflect.Type]*StructModel
 }
 
 var _ Analyzer = (*cachingAnalyzer)(nil)
 
 func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, err error) {
+	analyzer.lock.Lock()
+	defer analyzer.lock.Unlock()
 	mp := analyzer.types[typ]
 	if mp != nil {
 		model = *mp
 		return
 	}
 	model, err = Analyze(typ)
-	if err != nil {
+	if err == nil {
 		analyzer.types[typ] = &model
 	}
 	return
@@ -36,7 +40,7 @@ func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, e
 
 // BuildCachingAnalyzer returns an analyzer with a cache of type models.
 func BuildCachingAnalyzer() Analyzer {
-	return &cachingAnalyzer{}
+	return &cachingAnalyzer{types: map[reflect.Type]*StructModel{}}
 }
 
 // StructModel models a struct that has fields bound to attributes, whose instances
-- 
2.43.0


From 63543ceb79e19b449f78dc7d69965c991977cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 17/22] fix: report unusable struct fields and values as errors

Id fields that are not uint64s, maps and slices of unsupported elements or keys,
unexported fields of structs and collections, and nil assertions and retractions
panicked or were silently not recorded.
---
 internal/structs/models/models.go     | 21 +++++++++++++++++++++
 internal/structs/shredder/field.go    | 12 ++++++++++++
 internal/structs/shredder/shredder.go |  8 ++++++++
 pkg/database/impl.go                  |  4 ++++
 4 files changed, 45 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 0a5189b..aa0e97f 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -145,6 +145,11 @@ func AttrTypeForScalarKind(typ reflect.Type) (attrType ID) {
 	return
 }
 
+// isRefStruct indicates that values of the type are entities.
+func isRefStruct(typ reflect.Type) bool {
+	return typ.Kind() == reflect.Struct && typ != TimeType
+}
+
 func parseAttrField(field reflect.StructField) (attr AttrFieldModel, err error) {
 	tag, ok := field.Tag.Lookup("attr")
 	if !ok {
@@ -156,6 +161,9 @@ func parseAttrField(field reflect.StructField) (attr AttrFieldModel, err error)
 	}
 	attr.FieldType = field.Type
 	if attr.Ident == sys.DbId {
+		if field.Type.Kind() != reflect.Uint64 {
+			err = NewError("models.invalidIdFieldType", "tag", tag, "type", field.Type)
+		}
 		return
 	}
 	switch field.Type.Kind() {
@@ -178,8 +186,21 @@ func parseAttrField(field reflect.StructField) (attr AttrFieldModel, err error)
 		if attr.MapKey == "" {
 			attr.MapKey = Ident(sys.DbId)
 		}
+		key, elem := field.Type.Key(), field.Type.Elem()
+		if elem.Kind() == reflect.Pointer {
+			elem = elem.Elem()
+		}
+		isScalar := attr.MapKey != sys.DbId && AttrTypeForScalarKind(key) != 0
+		if !isRefStruct(elem) || !isScalar && key.Kind() != reflect.Uint64 {
+			err = NewError("models.invalidMapType", "tag", tag, "type", field.Type)
+		}
 	case reflect.Slice:
 		attr.Type = sys.AttrTypeRef
+		elem := field.Type.Elem()
+		isScalar := AttrTypeForScalarKind(elem) != 0
+		if isScalar != (attr.CollValue != "") || !isScalar && !isRefStruct(elem) {
+			err = NewError("models.invalidSliceType", "tag", tag, "type", field.Type)
+		}
 	case reflect.Pointer:
 		// This repeats the outer switch, but without the pointer, map or slice cases.
 		switch field.Type.Elem().Kind() {
diff --git a/internal/structs/shredder/field.go b/internal/structs/shredder/field.go
index aa3d286..ccb7757 100644
--- a/internal/structs/shredder/field.go
+++ b/internal/structs/shredder/field.go
@@ -40,6 +40,18 @@ func elementValue(v reflect.Value) any {
 }
 
 func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fieldValue reflect.Value) (val any, err error) {
+	if !fieldValue.CanInterface() {
+		// Only scalars may be read from unexported fields.
+		kind := fieldType.Kind()
+		if kind == reflect.Pointer {
+			kind = fieldType.Elem().Kind()
+		}
+		switch kind {
+		case reflect.Struct, reflect.Map, reflect.Slice:
+			err = NewError("shredder.unexportedField", "type", fieldType)
+			return
+		}
+	}
 	switch fieldType.Kind() {
 	case reflect.Bool, reflect.Int, reflect.String, reflect.Float64:
 		val, _ = scalarValue(fieldValue)
diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 6edbcc7..2e91b2a 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -104,6 +104,10 @@ func (s *shredder) Shred(doc Document) (req Request, ids []ERef, err error) {
 
 func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim, err error) {
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var fields reflect.Value
 	var id ID
 	switch typ.Kind() {
@@ -226,6 +230,10 @@ func (s *shredder) retract(confetti *confetti, x any) (retraction *Retraction, e
 	constraints := map[IDRef]Void{}
 	var fields reflect.Value
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var e ID
 	switch typ.Kind() {
 	case reflect.Struct:
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 434916b..6aa9c3c 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -58,6 +58,10 @@ func (db *localDatabase) Read() *Snapshot {
 func (db *localDatabase) Write(req Request) (res Response) {
 	for _, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
+		if typ == nil {
+			res.Error = types.NewError("database.write.nilAssertion")
+			return
+		}
 		if typ.Kind() == reflect.Pointer {
 			typ = typ.Elem()
 		}
-- 
2.43.0


From e51f6047ad5d14e8a65594533388ac8d6b99e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 18/22] fix: respond with a snapshot to rejected requests, and
 apply the default idents size

---
 pkg/database/impl.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 6aa9c3c..91dc1d2 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -33,7 +33,7 @@ func NewDatabase(config Config) Database {
 	}
 	identsSize := config.IdentsSize
 	if identsSize == 0 {
-		attrsSize = defaultConfig.IdentsSize
+		identsSize = defaultConfig.IdentsSize
 	}
 	return &localDatabase{
 		db:       database.NewIndexDatabase(degree, attrsSize, identsSize),
@@ -60,6 +60,7 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		typ := reflect.TypeOf(assertion)
 		if typ == nil {
 			res.Error = types.NewError("database.write.nilAssertion")
+			res.Snap = db.Read()
 			return
 		}
 		if typ.Kind() == reflect.Pointer {
@@ -70,6 +71,7 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		claims, err := schemas.Analyze(typ)
 		if err != nil {
 			res.Error = err
+			res.Snap = db.Read()
 			return
 		}
 		// TODO holy non-atomicity, batman. Probably we should accumulate
@@ -80,6 +82,10 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		ires := db.db.Write(types.Request{Claims: claims})
 		if ires.Error != nil {
 			res.Error = ires.Error
+			res.Snap = &Snapshot{
+				snap:     ires.Snapshot,
+				analyzer: db.analyzer,
+			}
 			return
 		}
 	}
@@ -89,17 +95,18 @@ func (db *localDatabase) Write(req Request) (res Response) {
 	})
 	if err != nil {
 		res.Error = err
+		res.Snap = db.Read()
 		return
 	}
 	ires := db.db.Write(ireq)
-	if ires.Error != nil {
-		res.Error = ires.Error
-		return
-	}
 	res.Snap = &Snapshot{
 		snap:     ires.Snapshot,
 		analyzer: db.analyzer,
 	}
+	if ires.Error != nil {
+		res.Error = ires.Error
+		return
+	}
 	n := len(req.Assertions)
 	res.IDs = make([]uint64, 0, n)
 	for i := range n {
-- 
2.43.0


From 0b62b59aa17e25c70c80dd445901c0a076fe7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 19/22] fix: record slice elements without any values

A slice with a struct whose fields are all nil or ignored as empty was rejected,
though its rank alone records it.
---
 internal/structs/shredder/shredder.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 2e91b2a..109b47b 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -198,16 +198,10 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 					if err != nil {
 						return
 					}
-					switch {
-					case attr.MapKey != "":
-						refFieldsClaims = append(refFieldsClaims, refFieldClaims...)
-					case len(refFieldClaims) > 0:
-						refFieldsClaims = append(refFieldsClaims, Claim{E: refFieldClaims[0].E, A: Ident("sys/db/rank"), V: Int(i)})
-						refFieldsClaims = append(refFieldsClaims, refFieldClaims...)
-					default:
-						err = NewError("shredder.missingSliceCollectionValue")
-						return
+					if attr.MapKey == "" {
+						refFieldsClaims = append(refFieldsClaims, Claim{E: vref.(TempID), A: Ident("sys/db/rank"), V: Int(i)})
 					}
+					refFieldsClaims = append(refFieldsClaims, refFieldClaims...)
 					claims = append(claims, Claim{E: e, A: attr.Ident, V: vref})
 				}
 			}
-- 
2.43.0


From 5b55909b9b65be2b6dcf6cce64eec3da4cce857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 20/22] fix: assemble structs in collections, by value, of
 several types and named types

Structs contained by value, in fields, maps or slices, were copied before the
entities they refer to were assembled, so lost their contents when shared or
nested. An entity could only be assembled as one type per find, and pointers
to it could point into another struct. Int slices, maps with int, named or id
keys, pointers to named scalars, elements without a rank or key, and attributes
recorded as another type than the field's panicked, and the id 0 found all of
the database's datums as one entity.
---
 internal/structs/assemblers/assemblers.go | 418 +++++++++++-----------
 1 file changed, 205 insertions(+), 213 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 6809759..8c22c94 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -3,6 +3,7 @@ package assemblers
 
 import (
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/dball/destructive/internal/structs/models"
@@ -10,62 +11,77 @@ import (
 	. "github.com/dball/destructive/internal/types"
 )
 
+// entityKey identifies an instance of an entity, which may have instances of several struct types.
+type entityKey struct {
+	id  ID
+	typ reflect.Type
+}
+
+// fieldAwaitingEntity is a struct field awaiting a copy of the entity to which its attribute refers.
+type fieldAwaitingEntity struct {
+	field  reflect.Value
+	entity entityKey
+}
+
+// mapAwaitingEntry is a map of structs awaiting a copy of the entity for the key.
 type mapAwaitingEntry struct {
-	mapKey         Ident
-	m              reflect.Value
-	pointer        reflect.Value
-	mapHasPointers bool
+	m       reflect.Value
+	key     reflect.Value
+	pointer reflect.Value
 }
 
+// sliceAwaitingEntry is an element of a slice of structs awaiting a copy of its entity.
 type sliceAwaitingEntry struct {
-	collValue Ident
-	slice     reflect.Value
-	pointer   reflect.Value
+	element reflect.Value
+	pointer reflect.Value
+}
+
+// rankedValue is the value of a ref datum to an entity in a slice.
+type rankedValue struct {
+	rank int64
+	id   ID
 }
 
-// TODO an assembler can only have a single instance type per id, which is not a constraint imposed
-// by the database. Should we reify this more formally?
 type assembler struct {
 	// analyzer converts types to struct models
 	analyzer models.Analyzer
 	// snapshot holds the actual datums
 	snapshot Snapshot
 	// instances are pointers to fully realized entity instances
-	instances map[ID]reflect.Value
+	instances map[entityKey]reflect.Value
 	// pointers are pointers to all of the at least partially realized entities allocated by the assembler
-	pointers map[ID]reflect.Value
+	pointers map[entityKey]reflect.Value
 	// unprocessed are (not nil) pointers to unrealized entities
-	unprocessed map[ID]reflect.Value
+	unprocessed map[entityKey]reflect.Value
+	// fieldsAwaitingEntities are fields of struct types in entities awaiting referent entities to be realized
+	fieldsAwaitingEntities map[entityKey][]fieldAwaitingEntity
 	// mapsAwaitingEntries are maps in entity struct fields awaiting referent entities to be realized
-	mapsAwaitingEntries map[ID][]mapAwaitingEntry
+	mapsAwaitingEntries []mapAwaitingEntry
 	// slicesAwaitingEntries are slices in entity struct fields awaiting referent entities to be realized
-	slicesAwaitingEntries map[ID][]sliceAwaitingEntry
+	slicesAwaitingEntries []sliceAwaitingEntry
 }
 
 func NewAssembler(analyzer models.Analyzer, snapshot Snapshot) (as *assembler) {
 	as = &assembler{
-		analyzer:              analyzer,
-		snapshot:              snapshot,
-		instances:             map[ID]reflect.Value{},
-		pointers:              map[ID]reflect.Value{},
-		unprocessed:           map[ID]reflect.Value{},
-		mapsAwaitingEntries:   map[ID][]mapAwaitingEntry{},
-		slicesAwaitingEntries: map[ID][]sliceAwaitingEntry{},
+		analyzer:               analyzer,
+		snapshot:               snapshot,
+		instances:              map[entityKey]reflect.Value{},
+		pointers:               map[entityKey]reflect.Value{},
+		unprocessed:            map[entityKey]reflect.Value{},
+		fieldsAwaitingEntities: map[entityKey][]fieldAwaitingEntity{},
 	}
 	return
 }
 
-func (as *assembler) allocate(id ID, pointerType reflect.Type) (ptr reflect.Value) {
-	// allocate the new pointer
-	pp := reflect.New(pointerType)
-	ptr = pp.Elem()
-	// allocate the new struct
-	entity := reflect.New(ptr.Type().Elem())
-	// store the new struct in the new pointer
-	ptr.Set(entity)
-	// store the pointer in the unrealized entities map
-	as.unprocessed[id] = ptr
-	as.pointers[id] = ptr
+// allocate returns the pointer to the instance of the entity, allocating it if needed.
+func (as *assembler) allocate(key entityKey) (ptr reflect.Value) {
+	ptr, ok := as.pointers[key]
+	if !ok {
+		ptr = reflect.New(key.typ)
+		// store the pointer in the unrealized entities map
+		as.unprocessed[key] = ptr
+		as.pointers[key] = ptr
+	}
 	return
 }
 
@@ -74,24 +90,48 @@ func (as *assembler) assembleAll() (err error) {
 		if len(as.unprocessed) == 0 {
 			break
 		}
-		var id ID
+		var key entityKey
 		var ptr reflect.Value
 		// TODO this should ideally be the first value in id order, so, again, sorted map
 		for k, v := range as.unprocessed {
-			id = k
+			key = k
 			ptr = v
 			delete(as.unprocessed, k)
 			break
 		}
-		err = as.assemble(id, ptr)
+		err = as.assemble(key, ptr)
 		if err != nil {
 			return
 		}
 	}
+	// All of the entities are realized, save for the structs they contain by value. Those in fields
+	// must precede those in maps and slices, which the copied fields' values may share.
+	for key := range as.fieldsAwaitingEntities {
+		as.copyFields(key)
+	}
+	for _, mae := range as.mapsAwaitingEntries {
+		mae.m.SetMapIndex(mae.key, mae.pointer.Elem())
+	}
+	as.mapsAwaitingEntries = nil
+	for _, sae := range as.slicesAwaitingEntries {
+		sae.element.Set(sae.pointer.Elem())
+	}
+	as.slicesAwaitingEntries = nil
 	return
 }
 
-func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
+// copyFields copies the referent entities into the entity's fields of struct types, innermost first.
+func (as *assembler) copyFields(key entityKey) {
+	faes := as.fieldsAwaitingEntities[key]
+	delete(as.fieldsAwaitingEntities, key)
+	for _, fae := range faes {
+		as.copyFields(fae.entity)
+		fae.field.Set(as.pointers[fae.entity].Elem())
+	}
+}
+
+func (as *assembler) assemble(key entityKey, ptr reflect.Value) (err error) {
+	id := key.id
 	value := ptr.Elem()
 
 	model, modelErr := as.analyzer.Analyze(value.Type())
@@ -99,10 +139,16 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 		err = modelErr
 		return
 	}
+	if id == 0 {
+		// This would select all datums.
+		as.instances[key] = reflect.ValueOf(nil)
+		return
+	}
 
 	// We know the A's in which we're interested, so we could be more selective (heh) here
 	// if we had reason to believe the snapshot E had many more A's.
 	foundAny := false
+	slices := map[int][]rankedValue{}
 	for datum := range as.snapshot.Select(Claim{E: id}) {
 		foundAny = true
 		ident := as.snapshot.ResolveAttrIdent(datum.A)
@@ -112,205 +158,154 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			continue
 		}
 		field := value.Field(attr.Index)
-		if attr.IsPointer() {
+		v, isID := datum.V.(ID)
+		switch {
+		case !field.CanSet():
+			err = NewError("assembler.unexportedField", "ident", ident, "type", value.Type())
+		case isID != (attr.Type == sys.AttrTypeRef):
+			err = NewError("assembler.invalidFactValue", "datum", datum, "type", field.Type())
+		case !isID && attr.IsPointer():
 			// TODO who owns the vs anyway? If they're not copied at some point,
 			// exposing value pointers opens the door to database corruption.
-			switch v := datum.V.(type) {
-			case String:
-				// TODO does this count as a copy for the purpose of ensuring the
-				// outer pointer doesn't change the Fact value?
-				fv := string(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Int:
-				fv := int(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Bool:
-				fv := bool(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Float:
-				fv := float64(v)
-				field.Set(reflect.ValueOf(&fv))
-			case Inst:
-				fv := time.Time(v)
-				field.Set(reflect.ValueOf(&fv))
-			case ID:
-				pointer, ok := as.pointers[v]
-				if ok {
-					field.Set(pointer)
-				} else {
-					pointer := as.allocate(v, field.Type())
-					field.Set(pointer)
-				}
-			default:
-				err = NewError("assembler.invalidFactPointerValue")
-				return
+			pointer := reflect.New(field.Type().Elem())
+			err = setScalar(pointer.Elem(), datum.V)
+			field.Set(pointer)
+		case !isID:
+			err = setScalar(field, datum.V)
+		case attr.IsPointer():
+			field.Set(as.allocate(entityKey{v, field.Type().Elem()}))
+		case attr.IsMap():
+			if field.IsNil() {
+				n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
+				field.Set(reflect.MakeMapWithSize(field.Type(), n))
 			}
-		} else {
-			switch v := datum.V.(type) {
-			case String:
-				field.SetString(string(v))
-			case Int:
-				// TODO what about overflows?
-				field.SetInt(int64(v))
-			case Bool:
-				field.SetBool(bool(v))
-			case Float:
-				field.SetFloat(float64(v))
-			case Inst:
-				field.Set(reflect.ValueOf(time.Time(v)))
-			case ID:
-				switch {
-				case attr.Ident == sys.DbId:
-					field.SetUint(uint64(v))
-				case attr.IsMap():
-					var m reflect.Value
-					if field.IsNil() {
-						n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
-						m = reflect.MakeMapWithSize(field.Type(), n)
-						field.Set(m)
-					} else {
-						m = field
-					}
-					mapValueType := m.Type().Elem()
-					mapHasPointers := mapValueType.Kind() == reflect.Pointer
-					if mapHasPointers {
-						mapValueType = mapValueType.Elem()
-					}
-					pointer, ok := as.pointers[v]
-					if !ok {
-						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
-					}
-					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
-				case attr.IsSlice():
-					var slice reflect.Value
-					if field.IsNil() {
-						n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
-						slice = reflect.MakeSlice(field.Type(), n, n)
-						field.Set(slice)
-					} else {
-						slice = field
-					}
-					if attr.CollValue == "" {
-						sliceValueType := slice.Type().Elem()
-						pointer, ok := as.pointers[v]
-						if !ok {
-							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
-						}
-						as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
-					} else {
-						// Since we have exactly two facts to find, we can reasonably just go right to them,
-						// though we may want to mark the entity id as processed now.
-						scalar := as.findValue(v, attr.CollValue)
-						i := int(as.findValue(v, Ident("sys/db/rank")).(int64))
-						slice.Index(i).Set(reflect.ValueOf(scalar))
-					}
-				default:
-					pointer, ok := as.pointers[v]
-					if ok {
-						field.Set(pointer.Elem())
-					} else {
-						pointer = field.Addr()
-						as.pointers[v] = pointer
-						as.unprocessed[v] = pointer
-					}
-				}
-			default:
-				err = NewError("assembler.invalidFactValue")
-				return
+			err = as.addEntityToMap(attr.MapKey, field, v)
+		case attr.IsSlice():
+			rank, ok := as.findValue(v, Ident("sys/db/rank")).(Int)
+			if ok {
+				slices[attr.Index] = append(slices[attr.Index], rankedValue{int64(rank), v})
 			}
+		default:
+			entity := entityKey{v, field.Type()}
+			as.allocate(entity)
+			as.fieldsAwaitingEntities[key] = append(as.fieldsAwaitingEntities[key], fieldAwaitingEntity{field, entity})
+		}
+		if err != nil {
+			return
 		}
 	}
 	if !foundAny {
-		as.instances[id] = reflect.ValueOf(nil)
+		as.instances[key] = reflect.ValueOf(nil)
 		return
 	}
-	attr, ok := model.Attr(Ident(sys.DbId))
-	if ok {
+	for _, attr := range model.AttrFields {
 		field := value.Field(attr.Index)
-		field.SetUint(uint64(id))
-	}
-	maes, ok := as.mapsAwaitingEntries[id]
-	if ok {
-		for _, mae := range maes {
-			as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
-		}
-		delete(as.mapsAwaitingEntries, id)
-	}
-	saes, ok := as.slicesAwaitingEntries[id]
-	if ok {
-		for _, sae := range saes {
-			as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+		switch {
+		case attr.Ident == sys.DbId:
+			if !field.CanSet() {
+				err = NewError("assembler.unexportedField", "ident", attr.Ident, "type", value.Type())
+				return
+			}
+			field.SetUint(uint64(id))
+		case slices[attr.Index] != nil:
+			err = as.addEntitiesToSlice(attr.CollValue, field, slices[attr.Index])
+			if err != nil {
+				return
+			}
 		}
-		delete(as.slicesAwaitingEntries, id)
 	}
-	as.instances[id] = ptr
+	as.instances[key] = ptr
 	return
 }
 
-func (as *assembler) findValue(e ID, a Ident) (v any) {
+func (as *assembler) findValue(e ID, a Ident) (v Value) {
+	if a == sys.DbId {
+		v = e
+		return
+	}
 	// TODO snapshot should support SelectOne?
 	for datum := range as.snapshot.Select(Claim{E: e, A: a}) {
-		switch x := datum.V.(type) {
-		case String:
-			v = string(x)
-		case Int:
-			v = int64(x)
-		case Bool:
-			v = bool(x)
-		case Float:
-			v = float64(x)
-		case Inst:
-			v = time.Time(x)
-		case ID:
-			v = uint64(x)
-		default:
-			panic("assembler.invalidFactValue")
-		}
+		v = datum.V
 		return
 	}
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) {
-	if immediate {
-		// findValue is the only way of finding the key value when it's not present on the value struct,
-		// though is plausibly much less efficient when that is the case. It might be useful to optimize
-		// that common case by constructing a more robust (cached) model of a struct's attributes that
-		// allows lookup by ident and use that to lookup the field value by index here.
-		key := as.findValue(id, mapKey)
-		value := pointer
-		if !mapHasPointers {
-			value = pointer.Elem()
-		}
-		m.SetMapIndex(reflect.ValueOf(key), value)
-		return
+// setScalar sets the settable target to the value, converted to its type.
+func setScalar(target reflect.Value, value Value) (err error) {
+	var v reflect.Value
+	switch x := value.(type) {
+	case String:
+		v = reflect.ValueOf(string(x))
+	case Int:
+		// TODO what about overflows?
+		v = reflect.ValueOf(int(x))
+	case Bool:
+		v = reflect.ValueOf(bool(x))
+	case Float:
+		v = reflect.ValueOf(float64(x))
+	case Inst:
+		v = reflect.ValueOf(time.Time(x))
+	case ID:
+		v = reflect.ValueOf(uint64(x))
 	}
-	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
-	maes, ok := as.mapsAwaitingEntries[id]
-	if !ok {
-		as.mapsAwaitingEntries[id] = []mapAwaitingEntry{mae}
-	} else {
-		maes = append(maes, mae)
-		as.mapsAwaitingEntries[id] = maes
+	if !v.IsValid() || v.Kind() != target.Kind() || !v.CanConvert(target.Type()) {
+		err = NewError("assembler.invalidFactValue", "value", value, "type", target.Type())
+		return
 	}
+	target.Set(v.Convert(target.Type()))
+	return
 }
 
-func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
-	if immediate {
-		value := pointer.Elem()
-		index := as.findValue(id, Ident("sys/db/rank"))
-		i := int(index.(int64))
-		slice.Index(i).Set(value)
+// addEntityToMap adds the entity to the map, unless it lacks a value for the map's key.
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID) (err error) {
+	// findValue is the only way of finding the key value when it's not present on the value struct,
+	// though is plausibly much less efficient when that is the case. It might be useful to optimize
+	// that common case by constructing a more robust (cached) model of a struct's attributes that
+	// allows lookup by ident and use that to lookup the field value by index here.
+	v := as.findValue(id, mapKey)
+	if v == nil {
 		return
 	}
-	sae := sliceAwaitingEntry{collValue, slice, pointer}
-	saes, ok := as.slicesAwaitingEntries[id]
-	if !ok {
-		as.slicesAwaitingEntries[id] = []sliceAwaitingEntry{sae}
+	key := reflect.New(m.Type().Key()).Elem()
+	err = setScalar(key, v)
+	if err != nil {
+		return
+	}
+	elem := m.Type().Elem()
+	if elem.Kind() == reflect.Pointer {
+		m.SetMapIndex(key, as.allocate(entityKey{id, elem.Elem()}))
 	} else {
-		saes = append(saes, sae)
-		as.slicesAwaitingEntries[id] = saes
+		mae := mapAwaitingEntry{m, key, as.allocate(entityKey{id, elem})}
+		as.mapsAwaitingEntries = append(as.mapsAwaitingEntries, mae)
 	}
+	return
+}
+
+// addEntitiesToSlice sets the slice field to the entities, or to their scalar values, in rank order.
+func (as *assembler) addEntitiesToSlice(collValue Ident, field reflect.Value, values []rankedValue) (err error) {
+	sort.SliceStable(values, func(i, j int) bool { return values[i].rank < values[j].rank })
+	slice := reflect.MakeSlice(field.Type(), len(values), len(values))
+	for i, value := range values {
+		element := slice.Index(i)
+		if collValue == "" {
+			sae := sliceAwaitingEntry{element, as.allocate(entityKey{value.id, element.Type()})}
+			as.slicesAwaitingEntries = append(as.slicesAwaitingEntries, sae)
+			continue
+		}
+		// Since we have exactly two facts to find, we can reasonably just go right to them,
+		// though we may want to mark the entity id as processed now.
+		scalar := as.findValue(value.id, collValue)
+		if scalar == nil {
+			continue
+		}
+		err = setScalar(element, scalar)
+		if err != nil {
+			return
+		}
+	}
+	field.Set(slice)
+	return
 }
 
 func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
@@ -320,14 +315,15 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 		err = modelErr
 		return
 	}
-	instance, ok := as.instances[id]
+	key := entityKey{id, structType}
+	instance, ok := as.instances[key]
 	if !ok {
-		as.allocate(id, reflect.TypeFor[*T]())
+		as.allocate(key)
 		err = as.assembleAll()
 		if err != nil {
 			return
 		}
-		instance, ok = as.instances[id]
+		instance, ok = as.instances[key]
 		if !ok {
 			err = NewError("assembler.failure", "id", id)
 			return
@@ -336,11 +332,7 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 	if instance == reflect.ValueOf(nil) {
 		return
 	}
-	extant := instance.Elem().Interface()
-	it, ok := extant.(T)
-	if !ok {
-		err = NewError("assembler.typeConflictForID", "id", id, "extant", extant, "type", structType)
-	}
+	it := instance.Elem().Interface().(T)
 	entity = &it
 	return
 }
-- 
2.43.0


From 23e1472618504faa8ce8c0deb46cd2683f9b152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:40 +0000
Subject: [PATCH 21/22] fix: a reference by temp id is not that of an extant
 datum to a forthcoming id

---
 internal/database/database.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index b5d3917..9095bd2 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -501,6 +501,14 @@ func (db *indexDatabase) resolveTempIDs(res *Response, claims []Claim, data []*D
 			if claims[i].Retract || db.attrUniques[datum.A] != sys.AttrUniqueIdentity {
 				continue
 			}
+			_, ok := claims[i].V.(TempID)
+			if ok && datum.V.(ID) > res.ID {
+				// Extant datums do not refer to the id allocated for a temp id, even if they have its number.
+				_, ok = db.ave.First(index.AV, *datum)
+				if ok {
+					continue
+				}
+			}
 			owner, e := resolve(uniqueOwner(ave, *datum)), resolve(datum.E)
 			if owner == e {
 				continue
-- 
2.43.0


From 6dd2c243844721fea2b71349e3712616d977cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:12 +0000
Subject: [PATCH 22/22] fix: reject the zero id as an attribute's cardinality
 or uniqueness

---
 internal/database/database.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 9095bd2..d77aaa0 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -246,6 +246,10 @@ CLAIMS:
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
 				break CLAIMS
 			}
+			if card == 0 {
+				res.Error = NewError("database.write.invalidAttrCardinality", "datum", datum)
+				break CLAIMS
+			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Cardinality != card {
@@ -264,6 +268,10 @@ CLAIMS:
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
 				break CLAIMS
 			}
+			if unique == 0 {
+				res.Error = NewError("database.write.invalidAttrUnique", "datum", datum)
+				break CLAIMS
+			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Unique != unique {
-- 
2.43.0


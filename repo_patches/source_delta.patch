From ececab0ad826d6000349b695bf73f74248987219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 01/48] fix: ID.Set and ID.Reset must not change copies of the
 ID

---
 id.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/id.go b/id.go
index a504b7d..d8dabdc 100644
--- a/id.go
+++ b/id.go
@@ -121,12 +121,8 @@ func (v ID) UInt64() uint64 {
 
 // Reset the value
 func (v *ID) Reset() {
-	if v.id == nil {
-		v.id = &idptr{}
-	} else {
-		v.id.id = 0
-		v.id.str = ""
-	}
+	// the pointer may be shared with copies of this ID, do not modify its target
+	v.id = nil
 }
 
 // Set the value
@@ -139,11 +135,8 @@ func (v *ID) Set(val string) error {
 	if err != nil || id == 0 {
 		return errors.Errorf("invalid ID: '%s'", val)
 	}
-	if v.id == nil {
-		v.id = &idptr{}
-	}
-	v.id.id = id
-	v.id.str = ""
+	// the pointer may be shared with copies of this ID, do not modify its target
+	v.id = &idptr{id: id}
 
 	return nil
 }
-- 
2.43.0


From f31ee0e3d13a2b8ecbb133149f88b54f414092c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 02/48] fix: ID.UnmarshalJSON keeps the canonical text of the
 ID

---
 id.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index d8dabdc..ffc9ec0 100644
--- a/id.go
+++ b/id.go
@@ -63,7 +63,11 @@ func (v *ID) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return errors.Errorf("expected number value to unmarshal ID: %s", s)
 	}
-	*v = ID{id: &idptr{id: f, str: s}}
+	if f == 0 {
+		*v = NewID(0)
+		return nil
+	}
+	*v = ID{id: &idptr{id: f, str: IDString(f)}}
 	return nil
 }
 
-- 
2.43.0


From e9e522e0c9315436b5e07af698d3688e1e299f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 03/48] fix: scanning NULL resets the previous value

---
 id.go    | 2 ++
 types.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/id.go b/id.go
index ffc9ec0..71eb509 100644
--- a/id.go
+++ b/id.go
@@ -148,6 +148,7 @@ func (v *ID) Set(val string) error {
 // Scan implements the Scanner interface.
 func (v *ID) Scan(value any) error {
 	if value == nil {
+		*v = ID{}
 		return nil
 	}
 
@@ -375,6 +376,7 @@ func (v ID32) String() string {
 // Scan implements the Scanner interface.
 func (v *ID32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
diff --git a/types.go b/types.go
index d960b10..6c73cfb 100644
--- a/types.go
+++ b/types.go
@@ -422,6 +422,7 @@ func (v Int64) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int64) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -496,6 +497,7 @@ func (v Int32) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -566,6 +568,7 @@ func (v Float) Float() float64 {
 // Scan implements the Scanner interface.
 func (v *Float) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -641,6 +644,7 @@ func (v Bool) Bool() bool {
 // Scan implements the Scanner interface.
 func (v *Bool) Scan(value any) error {
 	if value == nil {
+		*v = false
 		return nil
 	}
 
-- 
2.43.0


From e2e75bff712af2856d8801f195513c991f4b9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 04/48] fix: integer columns reject values out of their range

---
 id.go    |  6 ++++++
 types.go | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/id.go b/id.go
index 71eb509..5c6aafc 100644
--- a/id.go
+++ b/id.go
@@ -2,6 +2,7 @@ package xdb
 
 import (
 	"database/sql/driver"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -394,6 +395,11 @@ func (v *ID32) Scan(value any) error {
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	// negative values are above MaxUint32 after conversion
+	if id > math.MaxUint32 {
+		return errors.Errorf("value out of range for ID32: %v", value)
+	}
+
 	*v = ID32(id)
 	return nil
 }
diff --git a/types.go b/types.go
index 6c73cfb..eddc182 100644
--- a/types.go
+++ b/types.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -429,12 +430,18 @@ func (v *Int64) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int64: %v", value)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int64: %v", value)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
@@ -504,17 +511,27 @@ func (v *Int32) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt32 {
+			return errors.Errorf("value out of range for Int32: %v", value)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if vid > math.MaxInt32 {
+			return errors.Errorf("value out of range for Int32: %v", value)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if id < math.MinInt32 || id > math.MaxInt32 {
+		return errors.Errorf("value out of range for Int32: %v", value)
+	}
+
 	*v = Int32(id)
 	return nil
 }
-- 
2.43.0


From eadaba28c7351e8fd17968fd925b6f1366f14b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 05/48] fix: IDArray.Add must not write into the array of
 another list

---
 id.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 5c6aafc..5c1d80a 100644
--- a/id.go
+++ b/id.go
@@ -282,7 +282,8 @@ func (n IDArray) Add(id ID) IDArray {
 			return n
 		}
 	}
-	return append(n, id)
+	// full slice expression: never write into the backing array of another list
+	return append(n[:len(n):len(n)], id)
 }
 
 // Concat returns new list
-- 
2.43.0


From 4c3f8d3365dfbee2d4091b273e0e24c296e532bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 06/48] fix: UUID.Scan reports binary values of wrong length

---
 types.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types.go b/types.go
index eddc182..19c2c31 100644
--- a/types.go
+++ b/types.go
@@ -355,11 +355,10 @@ func (ns *UUID) Scan(value any) error {
 	}
 
 	var s string
-	var err error
 	switch vid := value.(type) {
 	case []byte:
 		if len(vid) != 16 {
-			return errors.WithMessagef(err, "failed to parse UUID: %v", vid)
+			return errors.Errorf("failed to parse UUID: %v", vid)
 		}
 		s = fmt.Sprintf("%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X",
 			vid[3], vid[2], vid[1], vid[0], vid[5], vid[4], vid[7], vid[6], vid[8], vid[9], vid[10], vid[11], vid[12], vid[13], vid[14], vid[15])
-- 
2.43.0


From 35ada7dc376e7d55073d9d0adf10f5246a4bb89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 07/48] fix: Strings.Scan accepts bytes and does not overwrite
 the previous list

---
 types.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 19c2c31..761123d 100644
--- a/types.go
+++ b/types.go
@@ -146,12 +146,26 @@ func (n *Strings) Scan(value any) error {
 		*n = nil
 		return nil
 	}
-	v := fmt.Sprint(value)
-	if len(v) == 0 {
+	var s []byte
+	switch vid := value.(type) {
+	case []byte:
+		s = vid
+	case string:
+		s = []byte(vid)
+	default:
+		s = []byte(fmt.Sprint(value))
+	}
+	if len(s) == 0 {
 		*n = Strings{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(v), n))
+	// decode to a new list, the previous one may be in use
+	var list Strings
+	if err := json.Unmarshal(s, &list); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = list
+	return nil
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From 1dc4b450d5529f1d581c79ab9f6b9dbdf63bfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 08/48] fix: Metadata.Scan and KVSet.Scan replace the previous
 content

---
 types.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 761123d..c478f50 100644
--- a/types.go
+++ b/types.go
@@ -257,7 +257,13 @@ func (n *Metadata) Scan(value any) error {
 		*n = Metadata{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// decode to a new map, the entries of the previous one must not remain
+	var m Metadata
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -307,7 +313,13 @@ func (n *KVSet) Scan(value any) error {
 		*n = KVSet{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// decode to a new map, the entries of the previous one must not remain
+	var m KVSet
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From c066d277e8da4541805a7b2e3f5bce06c0042480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 09/48] fix: Time.UnmarshalJSON returns UTC

---
 time.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/time.go b/time.go
index 9566ec6..008abea 100644
--- a/time.go
+++ b/time.go
@@ -157,5 +157,10 @@ func (ns *Time) UnmarshalJSON(data []byte) error {
 		*ns = Time{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(data), (*time.Time)(ns)))
+	t := time.Time(*ns)
+	if err := json.Unmarshal(data, &t); err != nil {
+		return errors.WithStack(err)
+	}
+	*ns = Time(t.UTC())
+	return nil
 }
-- 
2.43.0


From bac9404d8fca9af62b4bdcaf1b20b2be0bdd049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 10/48] fix: QueryParamsBuilder.Reset clears null columns

---
 params.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/params.go b/params.go
index 24b71b4..3349c0b 100644
--- a/params.go
+++ b/params.go
@@ -100,6 +100,7 @@ func (b *QueryParamsBuilder) Reset() {
 	b.limit = 0
 	b.offset = 0
 	b.cursor = nil
+	b.nullColumns = nil
 }
 
 // Name returns a hash of the query parameters.
-- 
2.43.0


From fa18087997c648c506e9b3b89ba6a14dae8befcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 11/48] fix: QueryParamsBuilder.Name must not reorder the
 caller's null columns

---
 params.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index 3349c0b..0060368 100644
--- a/params.go
+++ b/params.go
@@ -131,8 +131,10 @@ func (b *QueryParamsBuilder) Name() string {
 
 		if len(b.nullColumns) > 0 {
 			h := murmur3.New64()
-			sort.Strings(b.nullColumns)
-			for _, c := range b.nullColumns {
+			// the list belongs to the caller, sort a copy
+			cols := append([]string(nil), b.nullColumns...)
+			sort.Strings(cols)
+			for _, c := range cols {
 				h.Write([]byte(c))
 			}
 			n.WriteString("_n")
-- 
2.43.0


From 705b4fb6e44717864f486b1089f0f72df5c4cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 12/48] fix: QueryParamsBuilder.Name reflects parameters set
 after it was asked for

---
 params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/params.go b/params.go
index 0060368..cf2965b 100644
--- a/params.go
+++ b/params.go
@@ -149,6 +149,7 @@ func (b *QueryParamsBuilder) Name() string {
 // SetNullColums sets a list of columns that should be replaced with NULL.
 func (b *QueryParamsBuilder) SetNullColums(nullColumns []string) *QueryParamsBuilder {
 	b.nullColumns = nullColumns
+	b.hash = ""
 	return b
 }
 
@@ -170,6 +171,7 @@ func (b *QueryParamsBuilder) Set(pos uint32, v any) *QueryParamsBuilder {
 	b.checkPage()
 	b.positions |= 1 << pos
 	b.args = append(b.args, v)
+	b.hash = ""
 	return b
 }
 
@@ -185,6 +187,7 @@ func (b *QueryParamsBuilder) SetPage(limit, offset uint32) *QueryParamsBuilder {
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
 	b.offset = offset
 	b.args = append(b.args, b.limit, b.offset)
+	b.hash = ""
 	return b
 }
 
@@ -227,6 +230,7 @@ func (b *QueryParamsBuilder) SetEnum(pos uint32, v int32) *QueryParamsBuilder {
 	b.checkPage()
 	b.positions |= 1 << pos
 	b.enums = append(b.enums, enumPosition{pos, v})
+	b.hash = ""
 	return b
 }
 
@@ -244,6 +248,7 @@ func (b *QueryParamsBuilder) GetEnum(pos uint32) (int32, bool) {
 // SetFlags sets additional flags for query parameter.
 func (b *QueryParamsBuilder) SetFlags(v ...int32) *QueryParamsBuilder {
 	b.flags = v
+	b.hash = ""
 	return b
 }
 
-- 
2.43.0


From e046ebdc9725daa72e70c3308a8a6fdcc5f4da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 13/48] fix: QueryParamsBuilder.Name distinguishes the first
 page from a query without paging

---
 params.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/params.go b/params.go
index cf2965b..72eb18f 100644
--- a/params.go
+++ b/params.go
@@ -82,6 +82,8 @@ type QueryParamsBuilder struct {
 	offset uint32
 	// Cursor specifies the cursor for pagination
 	cursor any
+	// byCursor is set if the pagination is by cursor
+	byCursor bool
 }
 
 // NewQueryParams creates a new query parameters builder.
@@ -100,6 +102,7 @@ func (b *QueryParamsBuilder) Reset() {
 	b.limit = 0
 	b.offset = 0
 	b.cursor = nil
+	b.byCursor = false
 	b.nullColumns = nil
 }
 
@@ -127,6 +130,12 @@ func (b *QueryParamsBuilder) Name() string {
 			n.WriteString("_c")
 		} else if b.offset > 0 {
 			n.WriteString("_o")
+		} else if b.limit > 0 {
+			// first page: the query has paging arguments, unlike a query without paging
+			n.WriteString("_p")
+			if b.byCursor {
+				n.WriteRune('c')
+			}
 		}
 
 		if len(b.nullColumns) > 0 {
@@ -200,6 +209,7 @@ func (b *QueryParamsBuilder) Page() (limit uint32, offset uint32) {
 func (b *QueryParamsBuilder) SetCursor(limit uint32, pos uint32, cursor any) *QueryParamsBuilder {
 	b.Set(pos, cursor)
 	b.cursor = cursor
+	b.byCursor = true
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
 	b.args = append(b.args, b.limit)
 	return b
-- 
2.43.0


From e874138ced2b445369c26ba4e80e92a8eb1cbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 14/48] fix: list queries report iteration errors

---
 query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/query.go b/query.go
index 23a870c..76a1f76 100644
--- a/query.go
+++ b/query.go
@@ -49,6 +49,10 @@ func ExecuteListQuery[T any, TPointer RowPointer[T]](ctx context.Context, sql DB
 		}
 		list = append(list, m)
 	}
+	// the iteration may have ended by an error
+	if err = rows.Err(); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	return list, nil
 }
 
-- 
2.43.0


From 4c649616dd4a852686bed667317faa7788133ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 15/48] fix: no next page for a query without limit

---
 query.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 76a1f76..92c4b0d 100644
--- a/query.go
+++ b/query.go
@@ -94,7 +94,8 @@ func ExecuteQueryWithPagination[T any, TPointer RowPointer[T]](ctx context.Conte
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	// without a limit all rows were returned
+	hasNextPage := limit > 0 && count >= limit
 	nextOffset := values.Select(hasNextPage, offset+count, 0)
 
 	res.SetResult(list, hasNextPage, nextOffset)
@@ -127,7 +128,8 @@ func ExecuteQueryWithCursor[T any, TPointer RowPointer[T]](ctx context.Context,
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	// without a limit all rows were returned
+	hasNextPage := limit > 0 && count >= limit
 
 	res.SetResultWithCursor(list, hasNextPage, cursor)
 
-- 
2.43.0


From ea8467941e1e53e06991071c6f5e7ccf8f81446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 16/48] fix: Clone copies the current clause and the newline
 option

---
 xsql/stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 59520d6..d60db3f 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1007,6 +1007,8 @@ func (q *Stmt) Clone() Builder {
 	stmt.dest = insertAt(stmt.dest, q.dest, 0)
 	_, _ = stmt.buf.Write(q.buf.B)
 	stmt.sql = q.sql
+	stmt.pos = q.pos
+	stmt.useNewLines = q.useNewLines
 
 	return stmt
 }
-- 
2.43.0


From ec355e0b328c32d4e895e203c758a8a96b9f7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 17/48] fix: cached SQL is keyed by the whole statement, not
 only by its fragments

---
 xsql/stmt.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index d60db3f..eb094b9 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/effective-security/x/values"
@@ -911,7 +912,7 @@ func (q *Stmt) String() string {
 	if q.sql == "" {
 		// Calculate the buffer hash and check for available queries
 		// NOTE: can't use bufToString here as it returns Raw pointer
-		bufStrKey := values.StringsCoalesce(q.name, q.buf.String())
+		bufStrKey := values.StringsCoalesce(q.name, q.cacheKey())
 		sql, ok := q.dialect.GetCachedQuery(bufStrKey)
 		if ok {
 			q.sql = sql
@@ -943,6 +944,21 @@ func (q *Stmt) String() string {
 	return q.sql
 }
 
+// cacheKey identifies the SQL of the statement: the fragments in the order they were added,
+// followed by the clauses they belong to, as the same fragments make different statements.
+func (q *Stmt) cacheKey() string {
+	key := make([]byte, 0, len(q.buf.B)+16*len(q.chunks))
+	key = append(key, q.buf.B...)
+	for _, chunk := range q.chunks {
+		key = append(key, 0)
+		for _, n := range [...]int{int(chunk.pos), chunk.bufLow, chunk.bufHigh, chunk.argLen} {
+			key = strconv.AppendInt(key, int64(n), 36)
+			key = append(key, ' ')
+		}
+	}
+	return string(key)
+}
+
 /*
 Args returns the list of arguments to be passed to
 database driver for statement execution.
-- 
2.43.0


From c30ed3f620185848045e85e4c0511bd63c88c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 18/48] fix: escaped question marks are unescaped in fragments
 without arguments too

---
 xsql/stmt.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index eb094b9..ad0faac 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1,6 +1,7 @@
 package xsql
 
 import (
+	"bytes"
 	"context"
 	"database/sql"
 	"reflect"
@@ -928,10 +929,14 @@ func (q *Stmt) String() string {
 					buf.Write(space)
 				}
 				s := q.buf.B[chunk.bufLow:chunk.bufHigh]
-				if chunk.argLen > 0 && q.dialect.Provider() == "postgres" {
-					argNo, _ = writePg(argNo, s, &buf)
-				} else {
+				switch {
+				case q.dialect.Provider() != "postgres":
 					buf.Write(s)
+				case chunk.argLen > 0:
+					argNo, _ = writePg(argNo, s, &buf)
+				default:
+					// Nothing is bound, there are only escapes to replace
+					buf.Write(bytes.ReplaceAll(s, escapedPlaceholder, placeholder))
 				}
 				pos = chunk.pos
 			}
@@ -1265,10 +1270,11 @@ func (row newRow) SetExpr(field, expr string, args ...any) Row {
 }
 
 var (
-	space            = []byte{' '}
-	placeholder      = []byte{'?'}
-	placeholderComma = []byte{'?', ','}
-	joinOn           = []byte{' ', 'O', 'N', ' ', '('}
+	space              = []byte{' '}
+	placeholder        = []byte{'?'}
+	escapedPlaceholder = []byte{'\\', '?'}
+	placeholderComma   = []byte{'?', ','}
+	joinOn             = []byte{' ', 'O', 'N', ' ', '('}
 )
 
 type chunkPos int
-- 
2.43.0


From 138f4b19ed00e9dfd55c326f41e6b3d30ff437a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 19/48] fix: SubQuery with an empty prefix keeps its place and
 its arguments

---
 xsql/stmt.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index ad0faac..b66b3cc 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -839,16 +839,12 @@ func (q *Stmt) SubQuery(prefix, suffix string, b Builder) Builder {
 	if q.pos == posWhere {
 		delimiter = " AND "
 	}
-	index := q.addChunk(q.pos, "", prefix, query.args, delimiter)
-	chunk := &q.chunks[index]
 	// Make sure subquery is not dialect-specific.
 	if query.dialect != NoDialect {
 		query.dialect = NoDialect
 		query.Invalidate()
 	}
-	q.WriteString(query.String())
-	q.WriteString(suffix)
-	chunk.bufHigh = q.buf.Len()
+	q.addChunk(q.pos, "", prefix+query.String()+suffix, query.args, delimiter)
 	// Close the subquery
 	query.Close()
 
-- 
2.43.0


From ec7a5350aa48c02873b616161c4463064336bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 20/48] fix: Paginate back to the first page drops the previous
 offset

---
 xsql/stmt.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index b66b3cc..57dac11 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -802,13 +802,23 @@ func (q *Stmt) Paginate(page, pageSize int) Builder {
 	if pageSize < 1 {
 		pageSize = 1
 	}
-	if page > 1 {
+	if page > 1 || q.hasClause(posOffset) {
 		q.Offset((page - 1) * pageSize)
 	}
 	q.Limit(pageSize)
 	return q
 }
 
+// hasClause tells if the statement has a clause at the position
+func (q *Stmt) hasClause(pos chunkPos) bool {
+	for i := range q.chunks {
+		if q.chunks[i].pos == pos {
+			return true
+		}
+	}
+	return false
+}
+
 // With prepends a statement with an WITH clause.
 // With method calls a Close method of a given query, so
 // make sure not to reuse it afterwards.
-- 
2.43.0


From ded0a2c7b9a9e1e3c5f8d244aaa1996cf485d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 21/48] fix: any number of raw clauses keep their place

---
 xsql/stmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 57dac11..10018d7 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1287,7 +1287,7 @@ type chunkPos int
 
 const (
 	_        chunkPos = iota
-	posStart chunkPos = 100 * iota
+	posStart chunkPos = 1 << 20 * iota
 	posWith
 	posInsert
 	posInsertFields
-- 
2.43.0


From 2047a613053dcc503e263c52202ab85debd6ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 22/48] fix: BeginTx honours the requested transaction options

---
 prov.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prov.go b/prov.go
index 279b4d4..8dd1636 100644
--- a/prov.go
+++ b/prov.go
@@ -82,11 +82,11 @@ func (p *SQLProvider) keepAlive(period time.Duration) {
 // The provided TxOptions is optional and may be nil if defaults should be used.
 // If a non-default isolation level is used that the driver doesn't support,
 // an error will be returned.
-func (p *SQLProvider) BeginTx(ctx context.Context, _ *sql.TxOptions) (Provider, error) {
+func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provider, error) {
 	if p.tx != nil {
 		return nil, errors.New("transaction already started")
 	}
-	tx, err := p.conn.BeginTx(ctx, nil)
+	tx, err := p.conn.BeginTx(ctx, opts)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 5ecea4afcb5acee70b469ac10d048eefdfa3112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 23/48] fix: closing a provider ends its keep-alive goroutine,
 which must not use the closed connection

---
 prov.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/prov.go b/prov.go
index 8dd1636..e0f739c 100644
--- a/prov.go
+++ b/prov.go
@@ -21,6 +21,7 @@ type SQLProvider struct {
 	idGen   flake.IDGenerator
 	tx      Tx
 	ticker  *time.Ticker
+	stop    chan struct{}
 }
 
 // New creates a Provider instance
@@ -56,19 +57,26 @@ func (p *SQLProvider) Name() string {
 
 func (p *SQLProvider) keepAlive(period time.Duration) {
 	p.ticker = time.NewTicker(period)
-	ch := p.ticker.C
+	p.stop = make(chan struct{})
+	// the goroutine must not use the fields that Close resets
+	conn, ch, stop := p.conn, p.ticker.C, p.stop
 
 	// Go function
 	go func() {
-		// Using for loop
-		for range ch {
-			err := p.conn.Ping()
-			if err != nil {
-				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
+		for {
+			select {
+			case <-stop:
+				logger.KV(xlog.TRACE, "status", "stopped")
+				return
+			case <-ch:
+			}
+			if conn == nil {
 				continue
 			}
+			if err := conn.Ping(); err != nil {
+				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
+			}
 		}
-		logger.KV(xlog.TRACE, "status", "stopped")
 	}()
 }
 
@@ -106,6 +114,7 @@ func (p *SQLProvider) Close() (err error) {
 	if p.ticker != nil {
 		p.ticker.Stop()
 		p.ticker = nil
+		close(p.stop)
 	}
 	if p.conn == nil {
 		return nil
-- 
2.43.0


From eb6114d128f9943a2a74f91ddc381096680c3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 24/48] fix: BeginTx on a closed provider is an error

---
 prov.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prov.go b/prov.go
index e0f739c..0bee098 100644
--- a/prov.go
+++ b/prov.go
@@ -94,6 +94,9 @@ func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provide
 	if p.tx != nil {
 		return nil, errors.New("transaction already started")
 	}
+	if p.conn == nil {
+		return nil, errors.New("provider is closed")
+	}
 	tx, err := p.conn.BeginTx(ctx, opts)
 	if err != nil {
 		return nil, errors.WithStack(err)
-- 
2.43.0


From 11b9c02e5fc8c390c7fa684732311be649fd3a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:15 +0000
Subject: [PATCH 25/48] fix: the requested database name reaches the driver as
 exactly that database

---
 db.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/db.go b/db.go
index e9bd61d..ac0dc95 100644
--- a/db.go
+++ b/db.go
@@ -134,13 +134,9 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	if database != "" {
 		switch source.Driver {
 		case "sqlserver":
-			ds = ds + "&database=" + database
+			ds = withDatabase(ds, "database", database)
 		case "postgres":
-			if strings.Contains(ds, "host=") {
-				ds = ds + " dbname=" + database
-			} else {
-				ds = ds + "&dbname=" + database
-			}
+			ds = withDatabase(ds, "dbname", database)
 		default:
 			return nil, source.Driver, ds, errors.Errorf("unsuppoprted driver %q", source.Driver)
 		}
@@ -162,6 +158,29 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	return d, source.Driver, ds, nil
 }
 
+// withDatabase returns the connection URL with the database parameter set to the given name,
+// in place of a database the URL may already have.
+func withDatabase(ds, param, database string) string {
+	ds, _, _ = strings.Cut(ds, "#")
+	base, rawQuery, _ := strings.Cut(ds, "?")
+	if param == "dbname" {
+		// the path of a Postgres URL is a database name as well
+		if scheme, rest, ok := strings.Cut(base, "://"); ok {
+			host, _, _ := strings.Cut(rest, "/")
+			base = scheme + "://" + host
+		}
+	}
+	var query []string
+	for _, kv := range strings.Split(rawQuery, "&") {
+		key, _, _ := strings.Cut(kv, "=")
+		if kv != "" && !strings.EqualFold(key, param) {
+			query = append(query, kv)
+		}
+	}
+	query = append(query, param+"="+url.QueryEscape(database))
+	return base + "?" + strings.Join(query, "&")
+}
+
 // MigrationConfig defines migration configuration
 type MigrationConfig struct {
 	Source         string
-- 
2.43.0


From f9831471d17c6d1efa7e0482e6a37a10bd082a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 26/48] fix: no connection pool stays open when opening a
 database fails

---
 db.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db.go b/db.go
index ac0dc95..93eca20 100644
--- a/db.go
+++ b/db.go
@@ -152,6 +152,7 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 
 	err = d.Ping()
 	if err != nil {
+		_ = d.Close()
 		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
 	}
 
@@ -203,6 +204,7 @@ func NewProvider(dataSource, dbName string, idGen flake.IDGenerator, migrateCfg
 
 		err = migrate.Migrate(provider, dbName, migrationsDir, migrateCfg.ForceVersion, migrateCfg.MigrateVersion, d)
 		if err != nil {
+			_ = d.Close()
 			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
 		}
 	}
-- 
2.43.0


From 70ee089a8b3b0e99476624bbc9178e232dd83eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 27/48] fix: schema listings release their cursors on every
 path

---
 schema/provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 198ba2a..2b1dc08 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -69,6 +69,7 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer rows.Close()
 
 	tt := Tables{}
 	for rows.Next() {
@@ -141,6 +142,7 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer rows.Close()
 
 	tablesMap := map[string]*Table{} // map of Table FQN => table
 
@@ -207,6 +209,7 @@ func (r *SQLServerProvider) readColumnsSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	defer rows.Close()
 
 	cc := Columns{}
 	for rows.Next() {
@@ -243,6 +246,7 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
+	defer rows.Close()
 
 	var pk *Index
 	cc := Indexes{}
@@ -283,6 +287,7 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query foreign keys")
 	}
+	defer rows.Close()
 
 	keys := ForeignKeys{}
 	for rows.Next() {
-- 
2.43.0


From 13bb841a7f295db3733e034d33fc026ac4219807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 28/48] fix: an index on a column that is not visible does not
 crash the listing

---
 schema/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 2b1dc08..b6623d6 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -105,6 +105,10 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			for _, cn := range idx.ColumnNames {
 				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
 				col := r.columns[colShemaName]
+				if col == nil {
+					// the index has a column that is not visible to the user
+					continue
+				}
 				col.Indexes = append(col.Indexes, idx)
 				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
 					t.PrimaryKey = col
-- 
2.43.0


From b689748a128248d85a83ae16db3d20e6465b5f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 29/48] fix: a schema listing does not depend on earlier
 listings

---
 schema/provider.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index b6623d6..72bc8ed 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -46,14 +46,24 @@ func NewProvider(db xdb.DB, provider string) Provider {
 	p := &SQLServerProvider{
 		db:      db,
 		name:    provider,
+		dialect: dialect,
+	}
+
+	return p.fresh()
+}
+
+// fresh returns the provider with an empty cache:
+// a listing must not depend on what other listings have discovered
+func (r *SQLServerProvider) fresh() *SQLServerProvider {
+	return &SQLServerProvider{
+		db:      r.db,
+		name:    r.name,
 		columns: make(map[string]*Column),
 		tables:  make(map[string]*Table),
 		fkeys:   make(map[string]*ForeignKey),
 		indexes: make(map[string]*Index),
-		dialect: dialect,
+		dialect: r.dialect,
 	}
-
-	return p
 }
 
 // Name returns provider name
@@ -65,6 +75,8 @@ func (r *SQLServerProvider) Name() string {
 // schema and tables are optional parameters to filter,
 // if not provided, then all items are returned
 func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, tables []string, withDependencies bool) (Tables, error) {
+	r = r.fresh()
+
 	rows, err := r.dialect.QueryTables(ctx)
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
@@ -142,6 +154,8 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 // schemaName and tableNames are optional parameters to filter,
 // if not provided, then all items are returned
 func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tables []string) (Tables, error) {
+	r = r.fresh()
+
 	rows, err := r.dialect.QueryViews(ctx)
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
@@ -287,6 +301,10 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 // schema and tables are optional parameters to filter on source tables,
 // if not provided, then all items are returned
 func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []string, tables []string) (ForeignKeys, error) {
+	return r.fresh().listForeignKeys(ctx, schemas, tables)
+}
+
+func (r *SQLServerProvider) listForeignKeys(ctx context.Context, schemas []string, tables []string) (ForeignKeys, error) {
 	rows, err := r.dialect.QueryForeignKeys(ctx)
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query foreign keys")
@@ -332,7 +350,7 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 
 // discover will DFS on the graph and update internal cache with all dependencies
 func (r *SQLServerProvider) discover(ctx context.Context) (Tables, error) {
-	_, err := r.ListForeignKeys(ctx, nil, nil)
+	_, err := r.listForeignKeys(ctx, nil, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bf329df84ea5faf8ba5128164f8cd44c875bbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 30/48] fix: tables listed as dependencies carry their type,
 indexes and primary key

---
 schema/provider.go | 84 ++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 72bc8ed..32890b6 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -27,6 +27,7 @@ type SQLServerProvider struct {
 	dialect Dialect
 	name    string
 
+	types   map[string]string      // map of Table FQN => table type
 	tables  map[string]*Table      // map of Table FQN => table
 	columns map[string]*Column     // map of Column FQN => column
 	indexes map[string]*Index      // map of Column FQN => index
@@ -58,6 +59,7 @@ func (r *SQLServerProvider) fresh() *SQLServerProvider {
 	return &SQLServerProvider{
 		db:      r.db,
 		name:    r.name,
+		types:   make(map[string]string),
 		columns: make(map[string]*Column),
 		tables:  make(map[string]*Table),
 		fkeys:   make(map[string]*ForeignKey),
@@ -90,6 +92,9 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			return nil, errors.WithMessagef(err, "failed to scan")
 		}
 
+		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
+		r.types[t.SchemaName] = t.Type
+
 		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, t.Schema) {
 			continue
 		}
@@ -98,37 +103,9 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			continue
 		}
 
-		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
-
-		cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
-		}
-
-		t.Columns = cc
-
-		ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
-		}
-		t.Indexes = ii
-
-		for _, idx := range ii {
-			for _, cn := range idx.ColumnNames {
-				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
-				col := r.columns[colShemaName]
-				if col == nil {
-					// the index has a column that is not visible to the user
-					continue
-				}
-				col.Indexes = append(col.Indexes, idx)
-				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
-					t.PrimaryKey = col
-				}
-			}
+		if err := r.readTable(ctx, t); err != nil {
+			return nil, err
 		}
-
-		r.tables[t.SchemaName] = t
 		tt = append(tt, t)
 	}
 
@@ -150,6 +127,41 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	return tt, nil
 }
 
+// readTable reads columns, indexes and primary key of the table,
+// and adds it to the cache
+func (r *SQLServerProvider) readTable(ctx context.Context, t *Table) error {
+	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+	}
+
+	t.Columns = cc
+
+	ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
+	}
+	t.Indexes = ii
+
+	for _, idx := range ii {
+		for _, cn := range idx.ColumnNames {
+			colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
+			col := r.columns[colShemaName]
+			if col == nil {
+				// the index has a column that is not visible to the user
+				continue
+			}
+			col.Indexes = append(col.Indexes, idx)
+			if idx.IsPrimary && len(idx.ColumnNames) == 1 {
+				t.PrimaryKey = col
+			}
+		}
+	}
+
+	r.tables[t.SchemaName] = t
+	return nil
+}
+
 // ListViews returns a list of views in database.
 // schemaName and tableNames are optional parameters to filter,
 // if not provided, then all items are returned
@@ -387,18 +399,16 @@ func (r *SQLServerProvider) discoverTable(ctx context.Context, schema, table str
 	t := &Table{
 		Name:       table,
 		Schema:     schema,
-		SchemaName: fmt.Sprintf("%s.%s", schema, table),
+		Type:       r.types[tref],
+		SchemaName: tref,
 	}
-	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+	err := r.readTable(ctx, t)
 	if err != nil {
-		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+		return err
 	}
 
-	t.Columns = cc
-	r.tables[t.SchemaName] = t
-
 	// traverse columns
-	for _, c := range cc {
+	for _, c := range t.Columns {
 		fk := r.fkeys[c.SchemaName]
 		if fk == nil {
 			continue
-- 
2.43.0


From 8de8638966774dd9e567c8ede3991ad17e9a3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 31/48] fix: dependencies are followed over every foreign key
 of a column

---
 schema/provider.go | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 32890b6..6ab2f5d 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -31,7 +31,7 @@ type SQLServerProvider struct {
 	tables  map[string]*Table      // map of Table FQN => table
 	columns map[string]*Column     // map of Column FQN => column
 	indexes map[string]*Index      // map of Column FQN => index
-	fkeys   map[string]*ForeignKey // map of Column FQN => FK
+	fkeys   map[string]ForeignKeys // map of Column FQN => FKs
 }
 
 // NewProvider return MS SQL reader
@@ -62,7 +62,7 @@ func (r *SQLServerProvider) fresh() *SQLServerProvider {
 		types:   make(map[string]string),
 		columns: make(map[string]*Column),
 		tables:  make(map[string]*Table),
-		fkeys:   make(map[string]*ForeignKey),
+		fkeys:   make(map[string]ForeignKeys),
 		indexes: make(map[string]*Index),
 		dialect: r.dialect,
 	}
@@ -114,7 +114,7 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	}
 
 	if withDependencies {
-		tt, err = r.discover(ctx)
+		tt, err = r.discover(ctx, tt)
 		if err != nil {
 			return nil, err
 		}
@@ -348,7 +348,7 @@ func (r *SQLServerProvider) listForeignKeys(ctx context.Context, schemas []strin
 		k.Column = columnName(k.Column)
 		k.RefColumn = columnName(k.RefColumn)
 		k.SchemaName = fmt.Sprintf("%s.%s.%s", k.Schema, k.Table, k.Name)
-		r.fkeys[k.ColumnSchemaName()] = k
+		r.fkeys[k.ColumnSchemaName()] = append(r.fkeys[k.ColumnSchemaName()], k)
 
 		keys = append(keys, k)
 	}
@@ -360,24 +360,18 @@ func (r *SQLServerProvider) listForeignKeys(ctx context.Context, schemas []strin
 	return keys, nil
 }
 
-// discover will DFS on the graph and update internal cache with all dependencies
-func (r *SQLServerProvider) discover(ctx context.Context) (Tables, error) {
+// discover will DFS on the graph from the given tables and update internal cache with all dependencies
+func (r *SQLServerProvider) discover(ctx context.Context, tables Tables) (Tables, error) {
 	_, err := r.listForeignKeys(ctx, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 
 	// the cache now consists of Tables, Columns and FKeys
-	for n, c := range r.columns {
-		fk := r.fkeys[n]
-		if fk == nil {
-			continue
-		}
-		c.Ref = fk
-
-		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
+	for _, t := range tables {
+		err = r.discoverRefs(ctx, t)
 		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to discover: %s.%s", fk.RefSchema, c.Ref.RefTable)
+			return nil, err
 		}
 	}
 
@@ -407,20 +401,21 @@ func (r *SQLServerProvider) discoverTable(ctx context.Context, schema, table str
 		return err
 	}
 
-	// traverse columns
+	return r.discoverRefs(ctx, t)
+}
+
+// discoverRefs traverses the foreign keys of the table's columns
+func (r *SQLServerProvider) discoverRefs(ctx context.Context, t *Table) error {
 	for _, c := range t.Columns {
-		fk := r.fkeys[c.SchemaName]
-		if fk == nil {
-			continue
-		}
-		c.Ref = fk
+		for _, fk := range r.fkeys[c.SchemaName] {
+			c.Ref = fk
 
-		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
-		if err != nil {
-			return err
+			err := r.discoverTable(ctx, fk.RefSchema, fk.RefTable)
+			if err != nil {
+				return errors.WithMessagef(err, "failed to discover: %s.%s", fk.RefSchema, fk.RefTable)
+			}
 		}
 	}
-
 	return nil
 }
 
-- 
2.43.0


From 52afdd1e20e548fcaa97494eeaf60d9447685789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 32/48] fix: schema and table names reach the catalog queries
 as parameters

---
 schema/postgres.go  | 13 ++++++-------
 schema/sqlserver.go | 10 ++++------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index de05444..3eb4b47 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -32,15 +31,15 @@ func (p postgres) QueryTables(ctx context.Context) (*sql.Rows, error) {
 	return p.db.QueryContext(ctx, postgresTableNamesWithSchema)
 }
 
-func (p postgres) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
+const postgresQueryColumns = `
 	SELECT column_name, data_type, udt_name, is_nullable, character_maximum_length, ordinal_position 
   	FROM information_schema.columns
- 	WHERE table_schema = '%s'
-   	AND table_name = '%s';
-`, schema, table)
+ 	WHERE table_schema = $1
+   	AND table_name = $2;
+`
 
-	return p.db.QueryContext(ctx, qry)
+func (p postgres) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
+	return p.db.QueryContext(ctx, postgresQueryColumns, schema, table)
 }
 
 const postgresQueryViews = `
diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index efef608..35ffd72 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -40,12 +39,11 @@ func (p sqlserver) QueryTables(ctx context.Context) (*sql.Rows, error) {
 	return p.db.QueryContext(ctx, mssqlTableNamesWithSchema)
 }
 
-func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
-	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA=N'%s' AND TABLE_NAME = N'%s'`,
-		schema, table)
+const mssqlQueryColumns = `
+	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = @schema AND TABLE_NAME = @table`
 
-	return p.db.QueryContext(ctx, qry)
+func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
+	return p.db.QueryContext(ctx, mssqlQueryColumns, sql.Named("schema", schema), sql.Named("table", table))
 }
 
 const mssqlQueryViews = `
-- 
2.43.0


From 305fec9751c19826f8750c48df5b041c6748cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 33/48] fix: a view without visible columns does not fail the
 listing of views

---
 schema/provider.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 6ab2f5d..9dc8a71 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -179,11 +179,11 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 	for rows.Next() {
 		var schemaName string
 		var tableName string
-		c := &Column{}
-		var nullable string
+		// the column is NULL for a view without visible columns
+		var name, typ, udtType, nullable sql.NullString
 		var maxLen *int
-		var ordinal int
-		if err := rows.Scan(&schemaName, &tableName, &c.Name, &c.Type, &c.UdtType, &nullable, &maxLen, &ordinal); err != nil {
+		var ordinal sql.NullInt32
+		if err := rows.Scan(&schemaName, &tableName, &name, &typ, &udtType, &nullable, &maxLen, &ordinal); err != nil {
 			return nil, errors.WithStack(err)
 		}
 		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, schemaName) {
@@ -193,12 +193,6 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 		if len(tables) > 0 && !slices.ContainsStringEqualFold(tables, tableName) {
 			continue
 		}
-		c.Nullable = slices.ContainsStringEqualFold(nullableVals, nullable)
-		c.MaxLength = maxLength(maxLen)
-		c.Name = columnName(c.Name)
-		c.SchemaName = fmt.Sprintf("%s.%s.%s", schemaName, tableName, c.Name)
-		c.Position = uint32(ordinal)
-		r.columns[c.SchemaName] = c
 
 		tSchemaName := fmt.Sprintf("%s.%s", schemaName, tableName)
 		t := tablesMap[tSchemaName]
@@ -211,6 +205,20 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 			}
 			tablesMap[tSchemaName] = t
 		}
+
+		if !name.Valid {
+			continue
+		}
+		c := &Column{
+			Name:      columnName(name.String),
+			Type:      typ.String,
+			UdtType:   udtType.String,
+			Nullable:  slices.ContainsStringEqualFold(nullableVals, nullable.String),
+			MaxLength: maxLength(maxLen),
+			Position:  uint32(ordinal.Int32),
+		}
+		c.SchemaName = fmt.Sprintf("%s.%s.%s", schemaName, tableName, c.Name)
+		r.columns[c.SchemaName] = c
 		t.Columns = append(t.Columns, c)
 	}
 	if rows.Err() != nil {
-- 
2.43.0


From a01df3263032ea6a857f0dc37ab8ae70f6788a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 34/48] fix: table metadata can be used from several goroutines
 at once

---
 schema/schema.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index e5e0ba1..d4fe58a 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -27,8 +27,6 @@ type TableInfo struct {
 
 	// SchemaName is FQN in schema.name format
 	SchemaName string `json:"-" yaml:"-"`
-
-	allColumns string `json:"-" yaml:"-"`
 }
 
 // From starts FROM expression
@@ -76,10 +74,7 @@ func (t *TableInfo) SelectAliased(prefix string, nullColumns map[string]bool) xs
 
 // AllColumns returns list of all columns separated by comma
 func (t *TableInfo) AllColumns() string {
-	if t.allColumns == "" {
-		t.allColumns = strings.Join(t.Columns, ", ")
-	}
-	return t.allColumns
+	return strings.Join(t.Columns, ", ")
 }
 
 // AliasedColumns returns list of columns separated by comma,
-- 
2.43.0


From f6815878a41751f20c6c92e05185fe7c6c316169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 35/48] fix: reading the last id does not race with generating
 ids

---
 pkg/flake/flake.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/flake/flake.go b/pkg/flake/flake.go
index 9ffcd6d..3347197 100644
--- a/pkg/flake/flake.go
+++ b/pkg/flake/flake.go
@@ -268,6 +268,8 @@ func FirstID(g IDGenerator) uint64 {
 // LastID returns the last ID generated by the generator.
 func LastID(g IDGenerator) uint64 {
 	if fl, ok := g.(*Flake); ok {
+		fl.mutex.Lock()
+		defer fl.mutex.Unlock()
 		return fl.lastID
 	}
 	return 0
-- 
2.43.0


From c8db8c6cf6f3b33ee8179a43fecc390c63958dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 36/48] fix: notifier: pass notifications to the callback of
 their topic, stop when the listener is closed or the context ends

---
 pkg/notifier/listener.go | 72 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 3 deletions(-)

diff --git a/pkg/notifier/listener.go b/pkg/notifier/listener.go
index 7740164..15ea6eb 100644
--- a/pkg/notifier/listener.go
+++ b/pkg/notifier/listener.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"io"
+	"sync"
 	"time"
 
 	"github.com/cockroachdb/errors"
@@ -40,6 +41,20 @@ type Listener interface {
 
 type listener struct {
 	listener *pq.Listener
+
+	dispatchOnce sync.Once
+	closeOnce    sync.Once
+	// closed is closed when the listener is closed
+	closed chan struct{}
+
+	lock   sync.Mutex
+	topics map[string]*subscription
+}
+
+// subscription receives the notifications of one topic
+type subscription struct {
+	ctx    context.Context
+	notify chan *pq.Notification
 }
 
 func eventCallBack(ev pq.ListenerEventType, err error) {
@@ -71,6 +86,8 @@ func NewListener(p xdb.Provider, minReconnectInterval time.Duration, maxReconnec
 
 	l := &listener{
 		listener: lp,
+		closed:   make(chan struct{}),
+		topics:   make(map[string]*subscription),
 	}
 
 	return l
@@ -83,23 +100,69 @@ func (l *listener) Close() error {
 			return err
 		}
 	}
+	l.closeOnce.Do(func() { close(l.closed) })
 	return nil
 }
 
+// dispatch passes the notifications to the subscriptions of their topics,
+// until the underlying listener is closed.
+func (l *listener) dispatch() {
+	for n := range l.listener.Notify {
+		if n == nil {
+			// the connection was re-established
+			continue
+		}
+		l.lock.Lock()
+		sub := l.topics[n.Channel]
+		l.lock.Unlock()
+		if sub == nil {
+			continue
+		}
+		select {
+		case sub.notify <- n:
+		case <-sub.ctx.Done():
+		case <-l.closed:
+		}
+	}
+}
+
+func (l *listener) unsubscribe(topic string) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	delete(l.topics, topic)
+}
+
 func (l *listener) Listen(ctx context.Context, topic string, callback func(n *Notification)) error {
+	sub := &subscription{ctx: ctx, notify: make(chan *pq.Notification)}
+	l.lock.Lock()
+	_, exists := l.topics[topic]
+	if !exists {
+		l.topics[topic] = sub
+	}
+	l.lock.Unlock()
+	if exists {
+		return errors.Wrapf(pq.ErrChannelAlreadyOpen, "failed to listen to channel: %s", topic)
+	}
+	// keep receiving, as the requests are acknowledged after the pending notifications
+	l.dispatchOnce.Do(func() { go l.dispatch() })
+
 	err := l.listener.Listen(topic)
 	if err != nil {
+		l.unsubscribe(topic)
 		return errors.Wrapf(err, "failed to listen to channel: %s", topic)
 	}
 
 	go func() {
+		defer l.unsubscribe(topic)
 		for {
 			select {
+			case <-l.closed:
+				return
 			case <-ctx.Done():
 				logger.KV(xlog.INFO,
 					"reason", "context_done",
 					"channel", topic)
-				err = l.listener.Unlisten(topic)
+				err := l.listener.Unlisten(topic)
 				if err != nil {
 					logger.KV(xlog.ERROR,
 						"reason", "unlisten",
@@ -107,8 +170,11 @@ func (l *listener) Listen(ctx context.Context, topic string, callback func(n *No
 						"error", err.Error())
 				}
 				return
-			case n := <-l.listener.Notify:
-				if n != nil {
+			case n := <-sub.notify:
+				select {
+				case <-l.closed:
+				case <-ctx.Done():
+				default:
 					callback(parsePayload(n))
 				}
 			case <-time.After(time.Minute):
-- 
2.43.0


From f20af4c60380ddd3019a7a8dda6a49d1341d5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 37/48] fix: a failing migration whose error mentions "no
 change" is not a success

---
 migrate/migrate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index a9d8feb..9b0330c 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -4,7 +4,6 @@ import (
 	"database/sql"
 	"fmt"
 	"os"
-	"strings"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/xlog"
@@ -91,7 +90,7 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	}
 
 	if err != nil {
-		if strings.Contains(err.Error(), "no change") {
+		if err == migrate.ErrNoChange {
 			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
 			return nil
 		}
-- 
2.43.0


From 9974732635d0577133dc907f4efb3b0d7d913726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 38/48] fix: UUID.Scan decodes the text form that the Postgres
 driver delivers as bytes

---
 types.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/types.go b/types.go
index c478f50..f9e0052 100644
--- a/types.go
+++ b/types.go
@@ -383,6 +383,11 @@ func (ns *UUID) Scan(value any) error {
 	var s string
 	switch vid := value.(type) {
 	case []byte:
+		if isUUIDText(vid) {
+			// the Postgres driver delivers the text form as bytes
+			s = string(vid)
+			break
+		}
 		if len(vid) != 16 {
 			return errors.Errorf("failed to parse UUID: %v", vid)
 		}
@@ -398,6 +403,26 @@ func (ns *UUID) Scan(value any) error {
 	return nil
 }
 
+// isUUIDText returns true for the canonical text form of UUID
+func isUUIDText(b []byte) bool {
+	if len(b) != 36 {
+		return false
+	}
+	for i, c := range b {
+		switch i {
+		case 8, 13, 18, 23:
+			if c != '-' {
+				return false
+			}
+		default:
+			if !('0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F') {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // Value implements the driver Valuer interface.
 func (ns UUID) Value() (driver.Value, error) {
 	if ns == "" {
-- 
2.43.0


From bb077b563716839ad1a9c8e4b2638c5b9ad5185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 39/48] fix: a tinyint column holds 0..255, which does not fit
 int8

---
 internal/cli/schema/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cli/schema/types.go b/internal/cli/schema/types.go
index 3ace554..c01f856 100644
--- a/internal/cli/schema/types.go
+++ b/internal/cli/schema/types.go
@@ -32,7 +32,7 @@ var typeByColumnType = map[string]string{
 	"int":      "int32",
 	"int2":     "int16",
 	"smallint": "int16",
-	"tinyint":  "int8",
+	"tinyint":  "uint8",
 
 	"decimal": "float64",
 	"numeric": "float64",
-- 
2.43.0


From 6e3c3cc55e100663c0ef94d765f28801c0564912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 40/48] fix: generated schema files declare only the tables of
 their schema, in a stable order

---
 internal/cli/schema/schema.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 1a1871c..3cf0bce 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 
@@ -328,10 +329,18 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 	}
 
 	var err error
-	var tableInfos []*schema.TableInfo
-	var tableDefs []*tableDefinition
 
-	for schemaName, tables := range schemas {
+	schemaNames := make([]string, 0, len(schemas))
+	for schemaName := range schemas {
+		schemaNames = append(schemaNames, schemaName)
+	}
+	sort.Strings(schemaNames)
+
+	for _, schemaName := range schemaNames {
+		tables := schemas[schemaName]
+		var tableInfos []*schema.TableInfo
+		var tableDefs []*tableDefinition
+
 		w := ctx.Writer()
 		buf := &bytes.Buffer{}
 
-- 
2.43.0


From e1db5cae7527b166178b03b4694f693091a81b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 41/48] fix: the generator reports a failure to write the
 generated code

---
 internal/cli/schema/schema.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 3cf0bce..a37945d 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -428,7 +428,10 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format models: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		_, err = w.Write(code)
+		if err != nil {
+			return errors.WithMessagef(err, "failed to write models")
+		}
 
 		var schemaHeaderCodeTemplate = template.Must(template.New("schemaHeaderCodeTemplate").Funcs(templateFuncMap).Parse(codeSchemaHeaderTemplateText))
 		var schemaCodeTemplate = template.Must(template.New("schemaCodeTemplate").Funcs(templateFuncMap).Parse(codeTableSchemaTemplateText))
@@ -475,7 +478,10 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format schema: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		_, err = w.Write(code)
+		if err != nil {
+			return errors.WithMessagef(err, "failed to write schema")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From a7bd920931c49b98dfe78b993442347573cb7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 42/48] fix: Postgres indexes are those of the table, with
 columns in key order

The query matched indexes by name in all schemas, so that indexes of the same name were merged,
left out partitioned tables, and did not order the columns.
---
 schema/postgres.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index 3eb4b47..158c796 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -69,22 +69,22 @@ SELECT
 	i.relname as index_name,
 	ix.indisprimary as is_pk,
 	ix.indisunique as is_unique,
-	array_to_string(array_agg(a.attname), ',') as column_names
+	array_to_string(array_agg(a.attname ORDER BY array_position(ix.indkey::int2[], a.attnum)), ',') as column_names
 FROM
+	pg_namespace n,
 	pg_class t,
 	pg_class i,
 	pg_index ix,
-	pg_attribute a,
-	pg_indexes ixs
+	pg_attribute a
 WHERE
-	t.oid = ix.indrelid
+	t.relnamespace = n.oid
+	and t.oid = ix.indrelid
 	and i.oid = ix.indexrelid
 	and a.attrelid = t.oid
 	and a.attnum = ANY(ix.indkey)
-	and t.relkind = 'r'
-	and ixs.indexname = i.relname
-	and ixs.schemaname = $1
-	and ixs.tablename = $2
+	and t.relkind IN ('r', 'p')
+	and n.nspname = $1
+	and t.relname = $2
 GROUP BY
 	i.relname,
 	is_pk,
-- 
2.43.0


From 85e66e08247f1a374a1c598202740c03b456e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 43/48] fix: Postgres foreign keys of the same name in other
 schemas are not mixed up

---
 schema/postgres.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema/postgres.go b/schema/postgres.go
index 158c796..52766f9 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -110,8 +110,10 @@ FROM information_schema.table_constraints AS tc
 JOIN information_schema.key_column_usage AS kcu
     ON tc.constraint_name = kcu.constraint_name
     AND tc.table_schema = kcu.table_schema
+    AND tc.table_name = kcu.table_name
 JOIN information_schema.constraint_column_usage AS ccu
     ON ccu.constraint_name = tc.constraint_name
+    AND ccu.constraint_schema = tc.constraint_schema
 WHERE tc.constraint_type = 'FOREIGN KEY';
 `
 
-- 
2.43.0


From 8b5deb1b6e38b4fea7649861750038e023a56be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 44/48] fix: SQL Server views are matched by schema and name

A table with the name of a view of another schema was listed as a view, and the columns of
two views of the same name were listed twice.
---
 schema/sqlserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 35ffd72..7592f7c 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -48,7 +48,7 @@ func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql
 
 const mssqlQueryViews = `
 SELECT TABLE_SCHEMA, TABLE_NAME, COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS s
-JOIN sys.views v ON v.name = s.TABLE_NAME;
+JOIN sys.views v ON v.name = s.TABLE_NAME AND v.schema_id = SCHEMA_ID(s.TABLE_SCHEMA);
 `
 
 func (p sqlserver) QueryViews(ctx context.Context) (*sql.Rows, error) {
-- 
2.43.0


From 5f18c67b419fa8c448632440a384c287abcd8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 45/48] fix: SQL Server tables with extended properties are
 listed, once

Tables with any property, such as a description of the table or of a column, were left out,
and tables with several properties of other classes were repeated.
---
 schema/sqlserver.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 7592f7c..7ae0867 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -24,11 +24,13 @@ const mssqlTableNamesWithSchema = `
 	ON	s.schema_id = t.schema_id
 	LEFT JOIN
 		sys.extended_properties ep
-	ON	ep.major_id = t.[object_id]
+	ON	ep.major_id = t.[object_id] AND
+		ep.minor_id = 0 AND
+		ep.class_desc = 'OBJECT_OR_COLUMN' AND
+		ep.[name] = 'microsoft_database_tools_support'
 	WHERE
 		t.is_ms_shipped = 0 AND
-		(ep.class_desc IS NULL OR (ep.class_desc <> 'OBJECT_OR_COLUMN' AND
-			ep.[name] <> 'microsoft_database_tools_support'))
+		ep.[name] IS NULL
 	ORDER BY
 		schema_name(t.schema_id),
 		t.name,
-- 
2.43.0


From 4fd153b3f86915354cb23678925ce0fc32a47525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 46/48] fix: SQL Server indexes have the columns of the key, in
 key order

---
 schema/sqlserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 7ae0867..0b590c8 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -73,7 +73,8 @@ FROM sys.objects t
                             and ic.column_id = col.column_id
                     where ic.object_id = t.object_id
                         and ic.index_id = i.index_id
-                            order by col.column_id
+                        and ic.is_included_column = 0
+                            order by ic.key_ordinal
                             for xml path ('') ) D (column_names)
 WHERE t.is_ms_shipped <> 1 
     AND index_id > 0
-- 
2.43.0


From 437a9c96a3e63b054bc0ec734b7c841e755caf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:21 +0000
Subject: [PATCH 47/48] fix: columns without a length limit have no maximal
 length

SQL Server gives -1, which became 4294967295.
---
 schema/provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schema/provider.go b/schema/provider.go
index 9dc8a71..da56efb 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -438,7 +438,8 @@ func columnName(s string) string {
 }
 
 func maxLength(v *int) uint32 {
-	if v == nil {
+	// SQL Server gives -1 for varchar(max) and the like
+	if v == nil || *v < 0 {
 		return 0
 	}
 	return uint32(*v)
-- 
2.43.0


From 804af978ab5414189f9003c96b59c5f6f8ccadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:23 +0000
Subject: [PATCH 48/48] fix: Limit and Offset replace their own argument, not
 that of an expression added to the clause

---
 xsql/stmt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 10018d7..00af0bf 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1108,7 +1108,12 @@ loop:
 			if expr == "" {
 				// See if arguments are to be updated
 				if argLen > 0 {
-					copy(q.args[len(q.args)-argTail-chunk.argLen:], args)
+					// Arguments of a clause precede those of expressions added to it
+					argTail += chunk.argLen
+					for j := i - 1; j >= 0 && q.chunks[j].pos == pos; j-- {
+						argTail += q.chunks[j].argLen
+					}
+					copy(q.args[len(q.args)-argTail:], args)
 				}
 				return i
 			}
-- 
2.43.0


From 1d84b4dfab7618d29e50d79f710ea8480d866cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 01/39] fix: match globs without wildcards in the plain batch
 matcher

addGlob terminated the root node for a glob without prefix, suffix and
items, so it was accepted but never reported.
---
 glob/tree.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/glob/tree.go b/glob/tree.go
index a1c347b..178f1fd 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -41,6 +41,20 @@ func addGlob(rootTree *items.TreeItem, gg *Glob, index int) *items.TreeItem {
 		treeItem = newItem
 	}
 
+	if len(gg.Items) == 0 {
+		// plain string, without wildcards
+		node := items.NewString(gg.Node)
+		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
+		if newItem == nil {
+			if treeItem.Childs == nil {
+				treeItem.Childs = make([]*items.TreeItem, 0, 2)
+			}
+			newItem = &items.TreeItem{Item: node}
+			treeItem.Childs = append(treeItem.Childs, newItem)
+		}
+		treeItem = newItem
+	}
+
 	for i := 0; i < len(gg.Items); i++ {
 		newItem := items.LocateChildTreeItem(treeItem.Childs, gg.Items[i], false)
 		if newItem == nil {
-- 
2.43.0


From 0b92e2f2f0d45d9b08dd425f0c20d7e0bb2a0d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 02/39] fix: keep the normalized text when a compiled pattern
 is registered

The duplicate-index lookup overwrote the normalized text with the empty
string, so AddGlob and AddTerms returned and recorded it, and the dotted
AddGlob did not record the raw text.
---
 gglob/gtree.go | 8 +++++---
 glob/tree.go   | 4 +++-
 gtags/tree.go  | 4 +++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 4db72ae..79943fb 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -222,15 +222,17 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	var exist string
+	if exist, ok = gtree.GlobsIndex[index]; ok {
+		normalized = exist
 		err = glob.ErrIndexDup
 		return
 	}
 
 	addGGlob(gtree.Root, g, index)
 
-	gtree.Globs[g.Node] = index
-	if normalized != g.Node {
+	gtree.Globs[g.Glob] = index
+	if normalized != g.Glob {
 		gtree.Globs[normalized] = index
 	}
 	gtree.GlobsIndex[index] = normalized
diff --git a/glob/tree.go b/glob/tree.go
index 178f1fd..2ff2abe 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -158,7 +158,9 @@ func (gtree *GlobTree) AddGlob(g *Glob, index int) (normalized string, n int, er
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	var exist string
+	if exist, ok = gtree.GlobsIndex[index]; ok {
+		normalized = exist
 		err = ErrIndexDup
 		return
 	}
diff --git a/gtags/tree.go b/gtags/tree.go
index fbc765f..eea6e74 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -95,7 +95,9 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 		err = glob.ErrGlobExist
 		return
 	}
-	if normalized, ok = gtree.QueryIndex[index]; ok {
+	var exist string
+	if exist, ok = gtree.QueryIndex[index]; ok {
+		normalized = exist
 		err = glob.ErrIndexDup
 		return
 	}
-- 
2.43.0


From a1e475813e6f4f71a1b1ccbaa05a6562b562fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 03/39] fix: report tag queries registered with AddTerms

AddTerms did not mark the last item as the end of a query.
---
 gtags/tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index eea6e74..3fba6c2 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -107,7 +107,10 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 			Terminate: true, Index: index, Query: normalized,
 		}
 	} else {
-		gtree.Root.Parse(terms, normalized, index)
+		lastItem := gtree.Root.Parse(terms, normalized, index)
+		lastItem.Terminate = true
+		lastItem.Query = normalized
+		lastItem.Index = index
 	}
 
 	gtree.Queries[normalized] = index
-- 
2.43.0


From a430c6d8e27fa2a74ff7ae8f94fbfd9b910edb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 04/39] fix: finish a batch match of a star inside a list value

matchItemsInTree restarted the same star for ever.
---
 pkg/items/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63a17be..38482b1 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -448,6 +448,7 @@ func (item *TreeItem) matchItemsInTree(s string, items []Item, store Store) (mat
 			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
 				matched += n
 			}
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From b69b75d5c91937aaa5e34525f40a68d8db6c1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 05/39] fix: match any-symbol items after a star

A ? or a second star that follows a star through an optional list or a
list value panicked with 'forwarded match', skipped a symbol or ignored
its minimal length.
---
 pkg/items/items.go | 19 +++++++------------
 pkg/items/star.go  |  4 +++-
 pkg/items/tree.go  | 15 +++++++--------
 3 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c4894fa..b303a9a 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -312,8 +312,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 	)
 	if len(items) == 0 {
 		if nextItems == nil || nextItems.IsEmpty() {
-			matched = s == ""
-			abortGready = true
+			matched = true
 			return
 		} else {
 			items, nextItems = nextItems.Next()
@@ -458,22 +457,18 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			return
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
+		case FindForwarded, FindStar:
+			// skip a minimum symbols and continue a star scan
+			s = s[length:]
 			if len(items) == 1 {
 				if nextItems == nil || nextItems.IsEmpty() {
 					matched = true
 					return
-				} else {
-					items, nextItems := nextItems.Next()
-					if matched, _ = matchStarItems(s, items, nextItems); matched {
-						return
-					}
 				}
+				items, nextItems = nextItems.Next()
+				return matchStarItems(s, items, nextItems)
 			}
-			items = items[1:]
-			// continue
+			return matchStarItems(s, items[1:], nextItems)
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
diff --git a/pkg/items/star.go b/pkg/items/star.go
index 3a798da..ac7c9a6 100644
--- a/pkg/items/star.go
+++ b/pkg/items/star.go
@@ -47,7 +47,9 @@ func (item Star) MaxLen() int {
 
 func (item Star) Find(s string) (index, length int, support FindFlag) {
 	support = FindStar
-	length = utils.StringSkipRunes(s, int(item))
+	if length = utils.StringSkipRunes(s, int(item)); length == -1 {
+		index = -1
+	}
 	return
 }
 
diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 38482b1..613e761 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -305,13 +305,12 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
-			if len(item.Childs) == 0 && item.Terminate {
+		case FindForwarded, FindStar:
+			// skip a minimum symbols and continue a star scan
+			s = s[length:]
+			if item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-				return
 			}
 			for i := 0; i < len(item.Childs); i++ {
 				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
@@ -581,9 +580,9 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
+		case FindForwarded, FindStar:
+			// skip a minimum symbols and continue a star scan
+			s = s[length:]
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
-- 
2.43.0


From a6914ba7c8064bd4493a9043245772ef5d2fddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 06/39] fix: rescan a list after a star from the leftmost found
 value

The scan continued behind the rightmost value and missed matches in
between.
---
 pkg/items/items.go |  2 +-
 pkg/items/tree.go  | 24 +++++++++++++-----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index b303a9a..cbb7151 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -384,7 +384,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 						// TODO: skip on next scan ?
 						continue
 					}
-					if offset == -1 || offset < offsetN {
+					if offset == -1 || offset > offsetN {
 						offset = offsetN
 					}
 					s := s[offsetN+length:]
diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 613e761..2d35db8 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -232,16 +232,22 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 			}
 
 			for {
-				var offsetN int
+				// locate the leftmost value
 				offset := -1
 				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						continue
-					}
-					if offset == -1 || offset < offsetN {
+					if offsetN, _ := list.FindN(s, i); offsetN != -1 && (offset == -1 || offset > offsetN) {
 						offset = offsetN
 					}
-					s := s[offsetN+length:]
+				}
+				if offset == -1 {
+					break
+				}
+				s = s[offset:]
+				for i := 0; i < list.Len(); i++ {
+					if length = list.MatchN(s, i); length == -1 {
+						continue
+					}
+					s := s[length:]
 
 					if s == "" {
 						if item.Terminate {
@@ -255,10 +261,6 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 						}
 					}
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
 				if _, length = utf8.DecodeRuneInString(s); length < 1 {
 					break
 				}
@@ -527,7 +529,7 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 						// TODO: skip on next scan ?
 						continue
 					}
-					if offset == -1 || offset < offsetN {
+					if offset == -1 || offset > offsetN {
 						offset = offsetN
 					}
 					s := s[offsetN+length:]
-- 
2.43.0


From d9a378f89136ab97864201833c20d00b7ee1baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 07/39] fix: report a glob that is the beginning of a longer
 one

A glob ending in a star, or in an item after a star, was not reported
any more as soon as another glob continued it.
---
 pkg/items/tree.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 2d35db8..27cc777 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -155,17 +155,13 @@ func (item *TreeItem) match(s string, store Store) (matched int, abort bool) {
 	case FindForwarded:
 		panic("forwarded match")
 	case FindStar:
-		if len(item.Childs) == 0 {
-			if item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			}
-			return
-		} else {
-			for i := 0; i < len(item.Childs); i++ {
-				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-					matched += n
-				}
+		if item.Terminate {
+			store.Store(item.Query, item.Index)
+			matched++
+		}
+		for i := 0; i < len(item.Childs); i++ {
+			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
+				matched += n
 			}
 		}
 	default:
@@ -204,14 +200,13 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindDone:
 			s := s[length:]
 
-			if s == "" && len(item.Childs) == 0 && item.Terminate {
+			if s == "" && item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-			} else {
-				for i := 0; i < len(item.Childs); i++ {
-					if n, _ := item.Childs[i].match(s, store); n > 0 {
-						matched += n
-					}
+			}
+			for i := 0; i < len(item.Childs); i++ {
+				if n, _ := item.Childs[i].match(s, store); n > 0 {
+					matched += n
 				}
 			}
 		case FindList:
-- 
2.43.0


From 2070dd5d319dc376ab6d533ae50211d16233b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 08/39] fix: keep a list value with a star unlimited in length

Items appended after the star turned the unlimited length into a small
limit, so {*abc,x} did not match zzabc.
---
 pkg/items/chain.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/items/chain.go b/pkg/items/chain.go
index b727ea7..76badf3 100644
--- a/pkg/items/chain.go
+++ b/pkg/items/chain.go
@@ -22,11 +22,7 @@ func (item *Chain) Equal(a Item) bool {
 
 func (c *Chain) Append(item Item) {
 	c.MinSize += item.MinLen()
-	if l := item.MaxLen(); l == -1 {
-		c.MaxSize = -1
-	} else {
-		c.MaxSize += l
-	}
+	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())
 	c.Items = AppendItem(c.Items, item)
 }
 
-- 
2.43.0


From 1c528343c4ed5f8dc02a9eded52251024ae525c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 09/39] fix: parse wildcards in a list with one value

{b*}, {?} and lists whose values are all equal were taken literally.
---
 pkg/items/group.go      | 11 +++++++++++
 pkg/items/stringlist.go |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index 17c7bda..c2ba5e9 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -117,6 +117,17 @@ func NewGroup(vals []string) (item Item, err error) {
 	if len(items) == 0 {
 		return nil, nil
 	}
+	if len(items) == 1 {
+		switch v := items[0].(type) {
+		case *Chain:
+			if len(v.Items) == 0 {
+				return nil, nil
+			}
+		default:
+			// one item optimization
+			return items[0], nil
+		}
+	}
 	minLen := items[0].MinLen()
 	maxLen := items[0].MaxLen()
 	for i := 1; i < len(items); i++ {
diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 374140c..c111fd8 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -226,6 +226,9 @@ func NewItemList(vals []string) (item Item, err error) {
 		if vals[0] == "" {
 			return nil, nil
 		}
+		if HasWildcard(vals[0]) {
+			return NewGroup(vals)
+		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
 		if n == len(vals[0]) {
-- 
2.43.0


From 45d2f44aad1a1cd7adb17ee440e6010702ac3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 10/39] fix: make the normal form of a list with wildcards
 stable

Values were kept in the order of their raw text, so the normalized glob
parsed into another normal form: {[z]a*,b*} -> {za*,b*} -> {b*,za*}.
---
 pkg/items/group.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index c2ba5e9..ee6e1ad 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -2,6 +2,7 @@ package items
 
 import (
 	"math/rand"
+	"sort"
 	"strings"
 )
 
@@ -82,6 +83,21 @@ func (item *Group) IsOptional() bool {
 	return item.MinSize == 0
 }
 
+// sortUnique order values by normalized form (like ListExpand does for a raw form) and cleanup duplicated
+func sortUnique(items []Item) []Item {
+	sort.SliceStable(items, func(i, j int) bool {
+		return items[i].String() < items[j].String()
+	})
+	n := 0
+	for i := 1; i < len(items); i++ {
+		if items[i].String() != items[n].String() {
+			n++
+			items[n] = items[i]
+		}
+	}
+	return items[:n+1]
+}
+
 func NewGroup(vals []string) (item Item, err error) {
 	items := make([]Item, 0, len(vals))
 	for i := 0; i < len(vals); i++ {
@@ -104,7 +120,12 @@ func NewGroup(vals []string) (item Item, err error) {
 					}
 					chain.Append(item)
 				}
-				if len(chain.Items) == 1 {
+				if len(chain.Items) == 0 {
+					items = append(items, NewString(""))
+				} else if len(chain.Items) == 1 {
+					if chain.Items[0].Equal(Star(0)) {
+						return Star(0), nil
+					}
 					items = append(items, chain.Items[0])
 				} else {
 					items = append(items, chain)
@@ -117,15 +138,24 @@ func NewGroup(vals []string) (item Item, err error) {
 	if len(items) == 0 {
 		return nil, nil
 	}
+	for i := 0; i < len(items); i++ {
+		if items[i].String() != vals[i] {
+			// normalized values can be unordered and duplicated
+			items = sortUnique(items)
+			break
+		}
+	}
 	if len(items) == 1 {
 		switch v := items[0].(type) {
 		case *Chain:
-			if len(v.Items) == 0 {
+		case *String:
+			if v.S == "" {
 				return nil, nil
 			}
+			return v, nil
 		default:
 			// one item optimization
-			return items[0], nil
+			return v, nil
 		}
 	}
 	minLen := items[0].MinLen()
-- 
2.43.0


From 3256542db339199c9c2e4482991b75a01807a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 11/39] fix: keep the brackets of a quoted wildcard symbol

a[*]b was normalized to a*b, so it collided with the wildcard and turned
into it when the normal form was parsed again; [*] alone matched anything.
---
 pkg/items/wildcard.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index ced7e7f..529afa7 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -30,7 +30,8 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			return nil, next, nil
 		}
 		if len(runes.UnicodeRanges) == 0 {
-			if n == 1 {
+			// wildcard symbol can't be written without brackets
+			if n == 1 && !HasWildcard(string(rune(c))) {
 				return Byte(c), next, nil
 			}
 		}
-- 
2.43.0


From fefff526a6f700e3cfc7fb33cf7c1d3e6821aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 12/39] fix: write rune ranges so that they can be parsed again

A range up to the last ASCII symbol lost its end, and ranges that meet
between codepages were joined into one that the parser refuses.
---
 pkg/utils/asciiset.go    | 4 ++++
 pkg/utils/runesranges.go | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 6e9ef9b..23b2be3 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -34,6 +34,10 @@ func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 		}
 		if start != 0 {
 			buf.WriteByte(start)
+			if start < 127 {
+				buf.WriteByte('-')
+				buf.WriteByte(127)
+			}
 		}
 	}
 }
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index aa9a15a..130c853 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -28,7 +28,9 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 		pos := i
 		if pos < n-1 {
 			for next := i + 1; next < n; next++ {
-				if ranges[pos].First == ranges[next].First || ranges[pos].Last+1 >= ranges[next].First {
+				if ranges[pos].First == ranges[next].First || ranges[pos].Last >= ranges[next].First ||
+					// ranges beetween codepages can't be written, don't join them
+					(ranges[pos].Last+1 == ranges[next].First && utf8.RuneLen(ranges[pos].Last) == utf8.RuneLen(ranges[next].First)) {
 					if ranges[pos].Last < ranges[next].Last {
 						// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]
 						ranges[pos].Last = ranges[next].Last
-- 
2.43.0


From 909917fade074c27704ccd026230a99cfcdbeb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 13/39] fix: don't count dots against the maximal length of a
 dotted glob

GGlob.Match and MatchByParts with the path length refused a.b for a.b.
---
 gglob/gglob.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 6e5b4cc..bc9a753 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -30,7 +30,8 @@ func (g *GGlob) Match(path string) (matched bool) {
 	if len(path) < g.MinLen {
 		return
 	}
-	if g.MaxLen > 0 && len(path) > g.MaxLen {
+	// g.MaxLen don't include dots
+	if g.MaxLen > 0 && len(path)-partsCount+1 > g.MaxLen {
 		return
 	}
 
@@ -61,7 +62,8 @@ func (g *GGlob) MatchByParts(parts []string, length int) (matched bool) {
 		if length < g.MinLen {
 			return
 		}
-		if g.MaxLen > 0 && length > g.MaxLen {
+		// path length include dots (with the last, may be), but g.MaxLen don't
+		if g.MaxLen > 0 && length-len(parts) > g.MaxLen {
 			return
 		}
 	}
-- 
2.43.0


From 37431c10c4aa7f940885e1a27fb792c56d671ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 14/39] fix: check terms behind a skipped negative term in
 MatchByTags

A != or !=~ term for an absent tag moved the scan behind the last tag, so
every later term failed.
---
 gtags/tagged_term.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bd5bd34..61f44b1 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -151,18 +151,20 @@ LOOP:
 		}
 		if term.Key != tags[i].Key {
 			// scan for tag
-			for ; i < len(tags); i++ {
-				if tags[i].Key == term.Key {
+			next := i
+			for ; next < len(tags); next++ {
+				if tags[next].Key == term.Key {
 					break
 				}
 			}
-			if len(tags) == i {
+			if len(tags) == next {
 				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
 					// != and ~=! can be skiped and key can not exist
 					continue LOOP
 				}
 				return false
 			}
+			i = next
 		}
 		if !term.Match(tags[i].Value) {
 			return false
-- 
2.43.0


From 719e66225bf3e7f0559c6ebbf250de9e50186b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 15/39] fix: count and report a query without terms in both tag
 views

MatchByTags delivered seriesByTag() without counting it, MatchByTagsMap
did not deliver it.
---
 gtags/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index 3fba6c2..d73b01d 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -122,12 +122,17 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 }
 
 func (gtree *GTagsTree) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	return gtree.Root.MatchByTagsMap(tags, store)
+	if gtree.Terminate {
+		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
+	}
+	return matched + gtree.Root.MatchByTagsMap(tags, store)
 }
 
 func (gtree *GTagsTree) MatchByTags(tags []Tag, store items.Store) (matched int) {
 	if gtree.Terminate {
 		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
 	}
-	return gtree.Root.MatchByTags(tags, store)
+	return matched + gtree.Root.MatchByTags(tags, store)
 }
-- 
2.43.0


From bc613897afde18109cb2957c0e3c15ecfa3bce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 16/39] fix: start a new AllStore without a minimal index

NewAllStore left index 0 as the first match until Init was called.
---
 pkg/items/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/store.go b/pkg/items/store.go
index d807e3d..20a732d 100644
--- a/pkg/items/store.go
+++ b/pkg/items/store.go
@@ -81,7 +81,7 @@ type AllStore struct {
 }
 
 func NewAllStore() *AllStore {
-	return &AllStore{}
+	return &AllStore{Min: MinStore{-1}}
 }
 
 func (s *AllStore) Init() {
-- 
2.43.0


From 56d1c2c1ad6eb7f8bafb27ced580a46aa4b37177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 17/39] fix: don't drop the last symbol in PathTo and QueryTo

A single symbol behind the last escaped one was lost: QueryTo("a b")
appended a+.
---
 pkg/escape/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/escape/url.go b/pkg/escape/url.go
index bedba35..bb53e93 100644
--- a/pkg/escape/url.go
+++ b/pkg/escape/url.go
@@ -182,7 +182,7 @@ func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
 	if pos == 0 {
 		sb.WriteString(s)
 		return
-	} else if pos < len(s)-1 {
+	} else if pos < len(s) {
 		sb.WriteString(s[pos:])
 	}
 }
-- 
2.43.0


From 0c4e8c0a005ca5f951ef58cf7b505b083a717678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 18/39] fix: reset a parsed expression after it was expanded in
 try mode

The next Expand of the same expression went on with the second element
and then returned nothing.
---
 expand/expand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expand/expand.go b/expand/expand.go
index 755c61f..faf1e57 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -158,6 +158,7 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 			}
 
 			if try {
+				exps[0].reset()
 				break
 			}
 		}
-- 
2.43.0


From e5c39fc99159875dcbf326daa5a0d36788543041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 19/39] fix: generate samples that match the glob

Glob.WriteRandom left out the prefix and suffix, and a rune range wrote
all its ASCII symbols and panicked without unicode ranges.
---
 glob/glob.go             |  2 ++
 pkg/items/runesranges.go | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/glob/glob.go b/glob/glob.go
index 417d2c9..39a80b3 100644
--- a/glob/glob.go
+++ b/glob/glob.go
@@ -25,9 +25,11 @@ func (g *Glob) WriteRandom(buf *strings.Builder) {
 	if len(g.Items) == 0 {
 		buf.WriteString(g.Node)
 	} else {
+		buf.WriteString(g.Prefix)
 		for i := 0; i < len(g.Items); i++ {
 			g.Items[i].WriteRandom(buf)
 		}
+		buf.WriteString(g.Suffix)
 	}
 
 }
diff --git a/pkg/items/runesranges.go b/pkg/items/runesranges.go
index 6ebefdf..0119b03 100644
--- a/pkg/items/runesranges.go
+++ b/pkg/items/runesranges.go
@@ -28,15 +28,22 @@ func (item *RunesRanges) Equal(a Item) bool {
 }
 
 func (item *RunesRanges) WriteRandom(buf *strings.Builder) {
-	if !item.ASCII.IsEmpty() {
-		var i byte
-		for i = 1; i < 128; i++ {
-			if item.ASCII.Contains(i) {
+	count, _ := item.ASCII.Count()
+	n := rand.Intn(count + len(item.UnicodeRanges))
+	if n >= count {
+		buf.WriteRune(item.UnicodeRanges[n-count].First)
+		return
+	}
+	var i byte
+	for i = 1; i < 128; i++ {
+		if item.ASCII.Contains(i) {
+			if n == 0 {
 				buf.WriteByte(i)
+				return
 			}
+			n--
 		}
 	}
-	buf.WriteRune(item.UnicodeRanges[rand.Intn(len(item.UnicodeRanges))].First)
 }
 
 func (item *RunesRanges) WriteString(buf *strings.Builder) string {
-- 
2.43.0


From 5d4623b59a14d4595ed5fb0dad7c850b80253bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 20/39] fix: refuse a tag condition with a blank key

Registering seriesByTag(' =x') panicked.
---
 gtags/tagged_term.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 61f44b1..4ef3914 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -259,6 +259,9 @@ func ParseTaggedConditions(conditions []string) (terms TaggedTermList, err error
 			return nil, ErrExprInvalid{s}
 		}
 		terms[i].Key = strings.TrimSpace(s[:pos])
+		if terms[i].Key == "" {
+			return nil, ErrExprInvalid{s}
+		}
 		s = s[pos:]
 		if strings.HasPrefix(s, "=") {
 			if strings.HasPrefix(s, "=~") {
-- 
2.43.0


From 02dd2bffcfa49e02583de03d655df5ddbf0a5007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 21/39] fix: parse an expression that consists of empty lists
 only

ParseExpr("{}") panicked.
---
 expand/expand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expand.go b/expand/expand.go
index faf1e57..2958b58 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -242,7 +242,7 @@ func ParseExpr(in string) (e *Expressions) {
 	}
 
 	last := len(e.exps) - 1
-	if e.exps[last].typ == expWildcard {
+	if last >= 0 && e.exps[last].typ == expWildcard {
 		s := e.exps[last].body
 		pos := asciiSet.LastIndex(s) + 1
 		if pos < len(s) {
-- 
2.43.0


From ca0c55e9281ce0979cfc5941cf41552fcc46945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 22/39] fix: don't preallocate results that a limit cuts off

Expand of fourteen [a-z] with a limit of 10 panicked with 'makeslice: cap
out of range'; shorter ones allocated gigabytes for one result.
---
 expand/expand.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 2958b58..6d201e6 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -74,6 +74,9 @@ func getPair(in string) (start, stop int) {
 	return
 }
 
+// maxPrealloc is a limit for preallocated results
+const maxPrealloc = 4096
+
 type Expressions struct {
 	exps []Expression
 	buf  []byte
@@ -88,6 +91,11 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 	count := 1
 	for i := 0; i < len(e.exps); i++ {
 		count *= e.exps[i].count()
+		if count > maxPrealloc {
+			// may be not expanded (max and depth limits), append allocates the rest
+			count = maxPrealloc
+			break
+		}
 		if e.exps[i].typ == expWildcard {
 			break
 		}
-- 
2.43.0


From a224527011fadc2910dc7b6c832cd62d06c6b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 23/39] fix: write tag conditions so that they can be parsed
 again

A value with a single quote ended its own quotes, and = with a value that
starts with ~ became =~.
---
 gtags/tagged_term.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 4ef3914..83a0e69 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -42,6 +42,10 @@ type TaggedTerm struct {
 func (t TaggedTerm) WriteString(buf *strings.Builder) {
 	buf.WriteString(t.Key)
 	buf.WriteString(t.Op.String())
+	if (t.Op == TaggedTermEq || t.Op == TaggedTermNe) && strings.HasPrefix(t.Value, "~") {
+		// don't turn = into =~
+		buf.WriteByte(' ')
+	}
 	buf.WriteString(t.Value)
 }
 
@@ -108,9 +112,13 @@ func (t TaggedTermList) WriteString(buf *strings.Builder) {
 		if i > 0 {
 			buf.WriteByte(',')
 		}
-		buf.WriteByte('\'')
+		var quote byte = '\''
+		if strings.Contains(t[i].Key, "'") || strings.Contains(t[i].Value, "'") {
+			quote = '"'
+		}
+		buf.WriteByte(quote)
 		t[i].WriteString(buf)
-		buf.WriteByte('\'')
+		buf.WriteByte(quote)
 	}
 	buf.WriteString(")")
 }
-- 
2.43.0


From 2aafb4743f775ecae5aad747d90bbe28e11cbcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 24/39] fix: RunesRanges.IndexByte loops for ever on an ASCII
 byte outside a unicode set

---
 pkg/utils/runesranges.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 130c853..30c67ed 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -272,6 +272,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			if rs.ASCII.Contains(b[i]) {
 				return i, rune(b[i]), 1
 			}
+			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
 			if c == utf8.RuneError {
-- 
2.43.0


From ab207aba386a7543b064addf324f80087cda5566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 25/39] fix: RunesRanges.EndsWith returns a wrong offset for an
 ASCII symbol

---
 pkg/utils/runesranges.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 30c67ed..f66809f 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -359,7 +359,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	// detect ASCII
 	if c < utf8.RuneSelf {
 		if rs.ASCII.Contains(byte(c)) {
-			return c, 1
+			return c, len(s) - 1
 		} else {
 			return utf8.RuneError, -1
 		}
-- 
2.43.0


From 1e1d82ffb084916c37697cd9bfc7f8737ffc1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 26/39] fix: Byte.MatchLast returns a wrong offset on a match
 and panics on an empty string

---
 pkg/items/byte.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/byte.go b/pkg/items/byte.go
index 2367cd6..dc43739 100644
--- a/pkg/items/byte.go
+++ b/pkg/items/byte.go
@@ -72,8 +72,8 @@ func (item Byte) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Byte) MatchLast(s string) (offset int, support FindFlag) {
-	n := len(s) - 1
-	if c := s[n]; c != byte(item) {
+	offset = len(s) - 1
+	if offset >= 0 && s[offset] != byte(item) {
 		offset = -1
 	}
 	return
-- 
2.43.0


From eb3c1ee1cea8a11baeeed691a126ff485c8e5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:58 +0000
Subject: [PATCH 27/39] fix: ASCIISet.StringAll loses the last symbol (DEL)

---
 pkg/utils/asciiset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 23b2be3..bb33148 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -82,7 +82,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i < 127; i++ {
+	for i = 1; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From 60017310d6c57c16848f31cbc450b47987b2cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 28/39] fix: a set that can't be expanded lost its brackets

---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index aceba7d..6203db9 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -143,7 +143,7 @@ func getExpression(in string) Expression {
 			// return rune{in}
 			rs, ok := runesRangeExpand(in)
 			if !ok {
-				return Expression{typ: expWildcard, body: in}
+				return Expression{typ: expWildcard, body: orig}
 			}
 			if len(rs) == 0 {
 				return Expression{body: ""}
-- 
2.43.0


From 753d0ad8aeaff3f95a56bf77b560b6f2a3fc1e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 29/39] fix: a pattern with a byte of broken UTF-8 panics on a
 match

The byte was stored as the replacement rune, which is searched with the length of its own encoding.
---
 pkg/items/stringlist.go | 5 ++++-
 pkg/items/wildcard.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index c111fd8..053ac23 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -235,7 +235,10 @@ func NewItemList(vals []string) (item Item, err error) {
 			if c <= 127 {
 				return Byte(c), nil
 			}
-			return Rune(c), nil
+			// a byte of broken UTF-8 can't be written as a rune
+			if c != utf8.RuneError {
+				return Rune(c), nil
+			}
 		}
 		return NewString(vals[0]), nil
 	}
diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index 529afa7..f713cc3 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -82,7 +82,10 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			if c <= 127 {
 				return Byte(c), next, nil
 			}
-			return Rune(c), next, nil
+			// a byte of broken UTF-8 can't be written as a rune
+			if c != utf8.RuneError {
+				return Rune(c), next, nil
+			}
 		}
 		return NewString(v), next, nil
 	}
-- 
2.43.0


From 710dbfbc9c4b4d0b9c9a44e5f2026089262eb1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 30/39] fix: a unicode set after a star isn't found behind a
 byte of broken UTF-8

---
 pkg/utils/runesranges.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index f66809f..de4abe5 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -275,10 +275,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -307,10 +304,7 @@ func (rs *RunesRanges) Index(s string) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRuneInString(s[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
-- 
2.43.0


From fbec96669ec23019f30d6e3bb7d2ffdf6747c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 31/39] fix: unescape skips an escape behind a percent sign
 that starts none

The two bytes behind such a percent sign were copied unread, so an escape
or a plus sign among them was not decoded (%%41, 100%+off).
---
 pkg/escape/unescape.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/escape/unescape.go b/pkg/escape/unescape.go
index 632169c..4426289 100644
--- a/pkg/escape/unescape.go
+++ b/pkg/escape/unescape.go
@@ -40,20 +40,16 @@ func unescape(s string, first int, sb *strings.Builder) string {
 	sb.Grow(pos + len(s))
 	sb.WriteString(s[:first])
 
-LOOP:
 	for i := first; i < len(s); i++ {
 		switch s[i] {
 		case '%':
-			if len(s) < i+3 {
-				sb.WriteString(s[i:])
-				break LOOP
-			}
-			if !isPercentEscape(s, i) {
-				sb.WriteString(s[i : i+3])
-			} else {
+			if isPercentEscape(s, i) {
 				sb.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
+				i += 2
+			} else {
+				// next symbols can start an escape
+				sb.WriteByte('%')
 			}
-			i += 2
 		case '+':
 			sb.WriteByte(' ')
 		default:
-- 
2.43.0


From 5db4f03c4a26ec4637e750bd28d43aaced93ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 32/39] fix: PathSplitB accepts a path with an empty last part

Only an empty part with another one behind it was refused: a..b, but not a..
---
 gglob/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/utils.go b/gglob/utils.go
index 8578b96..ec1cfa6 100644
--- a/gglob/utils.go
+++ b/gglob/utils.go
@@ -41,8 +41,8 @@ func PathSplitB(path string, parts *[]string) (ok bool) {
 	}
 
 	var part string
-	for path != "" {
-		part, path, _ = strings.Cut(path, ".")
+	for found := true; found; {
+		part, path, found = strings.Cut(path, ".")
 		if part == "" {
 			return
 		}
-- 
2.43.0


From b41bb068dc1efb50ab85c38fe8d01d19d0b55dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 33/39] fix: a tag without a value is taken for a part of the
 next key

Such a tag was refused at the end of a path only; in front of another tag
(name;a;b=c) the key became a;b.
---
 gtags/tagged_term.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 83a0e69..e770105 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -393,18 +393,14 @@ func GraphitePathTags(path string) (tags []Tag, err error) {
 }
 
 func NextTag(tags string) (tag, value, next string, found bool) {
-	tag, next, found = strings.Cut(tags, "=")
-	if found {
-		value, next, _ = strings.Cut(next, "&")
-	}
+	tag, next, _ = strings.Cut(tags, "&")
+	tag, value, found = strings.Cut(tag, "=")
 	return
 }
 
 func GraphiteNextTag(tags string) (tag, value, next string, found bool) {
-	tag, next, found = strings.Cut(tags, "=")
-	if found {
-		value, next, _ = strings.Cut(next, ";")
-	}
+	tag, next, _ = strings.Cut(tags, ";")
+	tag, value, found = strings.Cut(tag, "=")
 	return
 }
 
-- 
2.43.0


From 383286299988fdcb41613c0cca3c5e002f44e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 34/39] fix: a dotted glob with an empty last part is accepted

a..b was refused, but a.. was taken for a, and . for a glob without parts.
---
 gglob/gglob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index bc9a753..e11bd01 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -90,7 +90,7 @@ func Parse(s string) (gg *GGlob, err error) {
 	gg = &GGlob{Glob: s, Parts: make([]*glob.Glob, 0, level)}
 
 	nextParts := s
-	for nextParts != "" {
+	for i := 0; i < level; i++ {
 		part, nextParts, _ = strings.Cut(nextParts, ".")
 		if part == "" {
 			err = items.ErrNodeEmpty{s}
-- 
2.43.0


From 58f70148434e709a727bd89eacd6e078886ab85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 35/39] fix: NUL in a set is neither counted, written nor
 sampled

[\0-b] was printed as [\1-b], and a set of NUL only was no item at all.
---
 pkg/items/runesranges.go |  2 +-
 pkg/utils/asciiset.go    | 22 ++++++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/items/runesranges.go b/pkg/items/runesranges.go
index 0119b03..6bc4b2d 100644
--- a/pkg/items/runesranges.go
+++ b/pkg/items/runesranges.go
@@ -35,7 +35,7 @@ func (item *RunesRanges) WriteRandom(buf *strings.Builder) {
 		return
 	}
 	var i byte
-	for i = 1; i < 128; i++ {
+	for i = 0; i < 128; i++ {
 		if item.ASCII.Contains(i) {
 			if n == 0 {
 				buf.WriteByte(i)
diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index bb33148..116322b 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -17,22 +17,24 @@ type ASCIISet [8]uint32
 
 func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 	if !ac.IsEmpty() {
-		var start, i byte
-		for i = 1; i <= 127; i++ {
+		const none byte = utf8.RuneSelf
+		start := none
+		var i byte
+		for i = 0; i <= 127; i++ {
 			if ac.Contains(i) {
-				if start == 0 {
+				if start == none {
 					start = i
 				}
-			} else if start != 0 {
+			} else if start != none {
 				buf.WriteByte(start)
 				if i > start+1 {
 					buf.WriteByte('-')
 					buf.WriteByte(i - 1)
 				}
-				start = 0
+				start = none
 			}
 		}
-		if start != 0 {
+		if start != none {
 			buf.WriteByte(start)
 			if start < 127 {
 				buf.WriteByte('-')
@@ -49,13 +51,13 @@ func (ac *ASCIISet) IsEmpty() bool {
 
 func (ac *ASCIISet) Count() (n int, first byte) {
 	if !ac.IsEmpty() {
-		var i byte = 1
+		var i byte
 		for ; i <= 127; i++ {
 			if ac.Contains(i) {
-				n++
-				if first == 0 {
+				if n == 0 {
 					first = i
 				}
+				n++
 			}
 		}
 	}
@@ -82,7 +84,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i <= 127; i++ {
+	for i = 0; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From 461b67312e8c9d94747a27c43e534628abaf8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 36/39] fix: NUL in a set is not expanded

[\0a] was expanded to a only: a zero stop marked a merged range.
---
 expand/runes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expand/runes.go b/expand/runes.go
index e6edd8f..4e60ec4 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -35,7 +35,7 @@ func runesRangeMerge(rs []runes) []runes {
 					}
 					// skip to next, merged
 					i++
-					rs[i].stop = 0
+					rs[i].stop = -1
 				} else {
 					break
 				}
@@ -44,9 +44,9 @@ func runesRangeMerge(rs []runes) []runes {
 
 		if pos != j {
 			rs[j] = rs[pos]
-			rs[pos].stop = 0
+			rs[pos].stop = -1
 		}
-		if rs[j].stop != 0 {
+		if rs[j].stop != -1 {
 			j++
 		}
 	}
-- 
2.43.0


From 3f8b4ad278b7cecdb2b703e781f3949e6f7beaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 37/39] fix: matching by parts does not match paths with empty
 parts, like matching by path

---
 gglob/gglob.go | 2 +-
 gglob/gtree.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index e11bd01..7979e8b 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -69,7 +69,7 @@ func (g *GGlob) MatchByParts(parts []string, length int) (matched bool) {
 	}
 
 	for i := 0; i < len(g.Parts); i++ {
-		if !g.Parts[i].Match(parts[i]) {
+		if parts[i] == "" || !g.Parts[i].Match(parts[i]) {
 			return
 		}
 	}
diff --git a/gglob/gtree.go b/gglob/gtree.go
index 79943fb..bf940aa 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -56,6 +56,9 @@ func (item *GTreeItem) MatchItems(path string, store items.Store) (matched int)
 }
 
 func (item *GTreeItem) MatchItemsByParts(parts []string, store items.Store) (matched int) {
+	if parts[0] == "" {
+		return
+	}
 	if len(item.ChildsMap) > 0 {
 		if child, ok := item.ChildsMap[parts[0]]; ok {
 			if len(parts) == 1 {
-- 
2.43.0


From 85f8b54c531269baec88c9aa5e2606b604f8d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 38/39] fix: a set matches the replacement character it
 contains

---
 pkg/items/rune.go        |  6 +++---
 pkg/utils/runesranges.go | 24 ++++++++++++++----------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/pkg/items/rune.go b/pkg/items/rune.go
index fc8cea0..49cce40 100644
--- a/pkg/items/rune.go
+++ b/pkg/items/rune.go
@@ -52,14 +52,14 @@ func (item Rune) MaxLen() int {
 
 func (item Rune) Find(s string) (index, length int, support FindFlag) {
 	c := rune(item)
-	if index = strings.IndexRune(s, c); index != -1 {
+	if index = strings.Index(s, string(c)); index != -1 {
 		length = utf8.RuneLen(c)
 	}
 	return
 }
 
 func (item Rune) Match(s string) (offset int, support FindFlag) {
-	if c, n := utf8.DecodeRuneInString(s); c != utf8.RuneError {
+	if c, n := utf8.DecodeRuneInString(s); c != utf8.RuneError || n > 1 {
 		if c == rune(item) {
 			offset = n
 		} else {
@@ -72,7 +72,7 @@ func (item Rune) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Rune) MatchLast(s string) (offset int, support FindFlag) {
-	if c, n := utf8.DecodeLastRuneInString(s); c != utf8.RuneError {
+	if c, n := utf8.DecodeLastRuneInString(s); c != utf8.RuneError || n > 1 {
 		if c == rune(item) {
 			offset = len(s) - n
 		} else {
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index de4abe5..2218b5c 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -64,13 +64,13 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 		if len(s) == 0 {
 			return rs, true
 		}
-		start := utf8.RuneError
+		start := rune(-1)
 		isRange := false
 		for i, c := range s {
 			if s[i] == '-' {
 				isRange = true
 			} else if isRange {
-				if start == utf8.RuneError {
+				if start == -1 {
 					start = c
 					isRange = false
 				} else {
@@ -98,11 +98,11 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 					} else {
 						return rs, false
 					}
-					start = utf8.RuneError
+					start = -1
 					isRange = false
 				}
 			} else {
-				if start != utf8.RuneError {
+				if start != -1 {
 					if start <= 127 {
 						rs.ASCII.Add(byte(start))
 						rs.setSizes(1)
@@ -113,9 +113,13 @@ func RunesRangeExpand(s string) (rs RunesRanges, ok bool) {
 				}
 				start = c
 			}
+			if c == utf8.RuneError && !strings.HasPrefix(s[i:], string(utf8.RuneError)) {
+				// a byte of broken UTF-8 isn't a rune
+				start = -1
+			}
 		}
-		if start != utf8.RuneError {
-			if start != utf8.RuneError {
+		if start != -1 {
+			if start != -1 {
 				if start <= math.MaxInt8 {
 					rs.ASCII.Add(byte(start))
 					rs.setSizes(1)
@@ -275,7 +279,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
-			if c != utf8.RuneError && rs.ContainsUnicode(c) {
+			if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -304,7 +308,7 @@ func (rs *RunesRanges) Index(s string) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRuneInString(s[i:])
-			if c != utf8.RuneError && rs.ContainsUnicode(c) {
+			if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -332,7 +336,7 @@ func (rs *RunesRanges) StartsWith(s string) (c rune, n int) {
 
 	// Unicode
 	c, n = utf8.DecodeRuneInString(s)
-	if c != utf8.RuneError && rs.ContainsUnicode(c) {
+	if (c != utf8.RuneError || n > 1) && rs.ContainsUnicode(c) {
 		return
 	}
 
@@ -346,7 +350,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	}
 
 	c, n = utf8.DecodeLastRuneInString(s)
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && n == 1 {
 		return utf8.RuneError, -1
 	}
 
-- 
2.43.0


From 2bbb741642b10a5e831873536b383e3b12f85510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 39/39] fix: expand a range over the replacement character to
 its end

---
 expand/expression.go |  2 +-
 expand/runes.go      | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/expand/expression.go b/expand/expression.go
index 6203db9..a750fcb 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -103,7 +103,7 @@ func (e *Expression) appendNext(out []byte) ([]byte, error) {
 		}
 	case expRunes:
 		for {
-			if c := e.runes[e.pos].next(); c == utf8.RuneError {
+			if c := e.runes[e.pos].next(); c == -1 {
 				if e.pos < len(e.runes)-1 {
 					e.pos++
 				} else {
diff --git a/expand/runes.go b/expand/runes.go
index 4e60ec4..3cb201a 100644
--- a/expand/runes.go
+++ b/expand/runes.go
@@ -3,6 +3,7 @@ package expand
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"unicode/utf8"
 )
 
@@ -66,13 +67,13 @@ func runesRangeExpandMust(s string) (rs []runes) {
 func runesRangeExpand(s string) (rs []runes, ok bool) {
 	if len(s) > 0 {
 		rs = make([]runes, 0, len(s)+4)
-		start := utf8.RuneError
+		start := rune(-1)
 		isRange := false
 		for i, c := range s {
 			if s[i] == '-' {
 				isRange = true
 			} else if isRange {
-				if start == utf8.RuneError {
+				if start == -1 {
 					start = c
 					isRange = false
 				} else {
@@ -87,18 +88,22 @@ func runesRangeExpand(s string) (rs []runes, ok bool) {
 					} else {
 						return rs, false
 					}
-					start = utf8.RuneError
+					start = -1
 					isRange = false
 				}
 			} else {
-				if start != utf8.RuneError {
+				if start != -1 {
 					rs = append(rs, runes{start: start, stop: start})
 				}
 				start = c
 			}
+			if c == utf8.RuneError && !strings.HasPrefix(s[i:], string(utf8.RuneError)) {
+				// a byte of broken UTF-8 isn't a rune
+				start = -1
+			}
 		}
-		if start != utf8.RuneError {
-			if start != utf8.RuneError {
+		if start != -1 {
+			if start != -1 {
 				rs = append(rs, runes{start: start, stop: start})
 			}
 		}
@@ -125,12 +130,12 @@ func (r *runes) reset() {
 
 func (r *runes) next() rune {
 	if r.pos == -1 {
-		return utf8.RuneError
+		return -1
 	}
 	c := r.pos
 	if c > r.stop {
 		r.pos = -1
-		return utf8.RuneError
+		return -1
 	}
 	r.pos++
 
-- 
2.43.0


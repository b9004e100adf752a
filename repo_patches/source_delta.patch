From 8ec364be66425667854faba5fa9019ad370e0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 1/3] fix: words iterator leaves every token to a custom split
 function

The ASCII hot path of Next was taken even after Split set another split
function, or when a Middle joiner is the space.
---
 words/iterator.go | 12 +++++++-----
 words/joiners.go  |  2 ++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/words/iterator.go b/words/iterator.go
index 84bdafa..d847b54 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -3,10 +3,11 @@ package words
 // Iterator is a generic iterator for words in strings or byte slices,
 // with an ASCII hot path optimization.
 type Iterator[T ~string | ~[]byte] struct {
-	split func(T, bool) (int, T, error)
-	data  T
-	pos   int
-	start int
+	split  func(T, bool) (int, T, error)
+	custom bool // split does not follow the standard rules, no hot path
+	data   T
+	pos    int
+	start  int
 }
 
 var (
@@ -48,7 +49,7 @@ func (iter *Iterator[T]) Next() bool {
 	// ASCII hot path: consume contiguous ASCII alphanumerics
 	// followed by ASCII space (or end of data)
 	b := iter.data[iter.pos]
-	if isASCIIAlphanumeric(b) {
+	if !iter.custom && isASCIIAlphanumeric(b) {
 		// Consume all contiguous ASCII alphanumerics
 		end := iter.pos + 1
 		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {
@@ -109,6 +110,7 @@ func (iter *Iterator[T]) SetText(data T) {
 // Split sets the SplitFunc for the Iterator.
 func (iter *Iterator[T]) Split(split func(T, bool) (int, T, error)) {
 	iter.split = split
+	iter.custom = true
 }
 
 // First returns the first word without advancing the iterator.
diff --git a/words/joiners.go b/words/joiners.go
index 42f7aa0..b731b77 100644
--- a/words/joiners.go
+++ b/words/joiners.go
@@ -4,6 +4,8 @@ package words
 // otherwise words will be split. See the [Joiners] type.
 func (iter *Iterator[T]) Joiners(j *Joiners[T]) {
 	iter.Split(j.splitFunc)
+	// The ASCII hot path remains valid with joiners, unless they join spaces
+	iter.custom = j != nil && runesContain(j.Middle, ' ')
 }
 
 // Joiners allows specification of characters (runes) which will join words (tokens)
-- 
2.43.0


From 0938548701db1e86b15af106799148470a204010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 2/3] fix: generator aborts on an HTTP error status and on a
 failed close

---
 internal/gen/main.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/gen/main.go b/internal/gen/main.go
index b919bad..58909b4 100644
--- a/internal/gen/main.go
+++ b/internal/gen/main.go
@@ -107,6 +107,10 @@ func (p prop) generateTrie() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("get %s: %s", p.URL(), resp.Status)
+	}
 
 	b := bufio.NewReader(resp.Body)
 
@@ -251,6 +255,10 @@ func (p prop) generateTests() error {
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("get %s: %s", p.TestURL(), resp.Status)
+	}
 
 	sc := bufio.NewScanner(resp.Body) // defaults to ScanLines
 
@@ -387,9 +395,11 @@ var unicodeTests = [%d]unicodeTest {
 	if err != nil {
 		return err
 	}
-	defer dst.Close()
 
 	_, err = dst.Write(formatted)
+	if cerr := dst.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return err
 	}
@@ -473,9 +483,11 @@ func writeTrie(prop prop, trie *triegen.Trie, iotasByProperty map[string]uint64)
 	if err != nil {
 		return err
 	}
-	defer dst.Close()
 
 	_, err = dst.Write(formatted)
+	if cerr := dst.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6395d4318c1d70039165edf6c594a1b7e475906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 3/3] fix: do not overflow when a SplitFunc advances by nearly
 math.MaxInt

The check that an advance stays within the text added it to the current
position first; a huge advance wrapped around to a negative position and was
accepted. Compare it with what remains instead.
---
 internal/iterators/iterator.go | 4 ++--
 words/iterator.go              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/iterators/iterator.go b/internal/iterators/iterator.go
index 8b41f4e..106fe5e 100644
--- a/internal/iterators/iterator.go
+++ b/internal/iterators/iterator.go
@@ -58,10 +58,10 @@ func (iter *Iterator[T]) Next() bool {
 		panic("SplitFunc returned a zero or negative advance")
 	}
 
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(d) {
 		panic("SplitFunc advanced beyond the end of the data")
 	}
+	iter.pos += advance
 
 	return true
 }
diff --git a/words/iterator.go b/words/iterator.go
index d847b54..6fe0e39 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -72,10 +72,10 @@ func (iter *Iterator[T]) Next() bool {
 	if advance <= 0 {
 		panic("splitFunc returned a zero or negative advance")
 	}
-	iter.pos += advance
-	if iter.pos > len(iter.data) {
+	if advance > len(remaining) {
 		panic("splitFunc advanced beyond end of data")
 	}
+	iter.pos += advance
 	return true
 }
 
-- 
2.43.0


From 5e913f6c1e341276a217dde2b0a155a5f4b416a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 01/33] fix: keep a file's package, label and workspace root
 when statements are removed or added

---
 edit/bzlmod/bzlmod.go |  2 +-
 edit/edit.go          | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 4a3fc42..62200f7 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -115,7 +115,7 @@ func NewUseRepo(f *build.File, proxies []string) (*build.File, *build.CallExpr)
 	}
 	stmt := append(f.Stmt[:lastUsage+1], append([]build.Expr{useRepo}, f.Stmt[lastUsage+1:]...)...)
 
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
+	return &build.File{Path: f.Path, Pkg: f.Pkg, Label: f.Label, WorkspaceRoot: f.WorkspaceRoot, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
 }
 
 // AddRepoUsages adds the given repos to the given use_repo calls without introducing duplicate
diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..81421ed 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -187,7 +187,7 @@ func RemoveEmptyPackage(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return &build.File{Path: f.Path, Pkg: f.Pkg, Label: f.Label, WorkspaceRoot: f.WorkspaceRoot, Comments: f.Comments, Stmt: all, Type: f.Type}
 }
 
 func isEmptyPackage(expr build.Expr) bool {
@@ -221,7 +221,7 @@ func RemoveEmptyUseRepoCalls(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: build.TypeModule}
+	return &build.File{Path: f.Path, Pkg: f.Pkg, Label: f.Label, WorkspaceRoot: f.WorkspaceRoot, Comments: f.Comments, Stmt: all, Type: build.TypeModule}
 }
 
 func isEmptyUseRepoCall(expr build.Expr) bool {
@@ -348,7 +348,7 @@ func DeleteRule(f *build.File, rule *build.Rule) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return &build.File{Path: f.Path, Pkg: f.Pkg, Label: f.Label, WorkspaceRoot: f.WorkspaceRoot, Comments: f.Comments, Stmt: all, Type: f.Type}
 }
 
 // DeleteRuleByName returns the AST without the rules that have the
@@ -366,7 +366,7 @@ func DeleteRuleByName(f *build.File, name string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return &build.File{Path: f.Path, Pkg: f.Pkg, Label: f.Label, WorkspaceRoot: f.WorkspaceRoot, Comments: f.Comments, Stmt: all, Type: f.Type}
 }
 
 // DeleteRuleByKind removes the rules of the specified kind from the AST.
@@ -384,7 +384,7 @@ func DeleteRuleByKind(f *build.File, kind string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return &build.File{Path: f.Path, Pkg: f.Pkg, Label: f.Label, WorkspaceRoot: f.WorkspaceRoot, Comments: f.Comments, Stmt: all, Type: f.Type}
 }
 
 // AllLists returns all the lists concatenated in an expression.
-- 
2.43.0


From 8a3af31badfe1134c7e035442f62d846262d4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 02/33] fix: DelRules decides implicit names on the whole file,
 not on the half-compacted one

---
 build/rule.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/build/rule.go b/build/rule.go
index b6e10bc..e43c1ca 100644
--- a/build/rule.go
+++ b/build/rule.go
@@ -107,7 +107,8 @@ func (f *File) RuleNamed(name string) *Rule {
 // An empty kind matches all kinds; an empty name matches all names.
 // It returns the number of rules that were deleted.
 func (f *File) DelRules(kind, name string) int {
-	var i int
+	// Keep f.Stmt intact until the end: implicit rule names depend on all statements of the file.
+	var kept []Expr
 	for _, stmt := range f.Stmt {
 		if call, ok := stmt.(*CallExpr); ok {
 			r := f.Rule(call)
@@ -116,11 +117,10 @@ func (f *File) DelRules(kind, name string) int {
 				continue
 			}
 		}
-		f.Stmt[i] = stmt
-		i++
+		kept = append(kept, stmt)
 	}
-	n := len(f.Stmt) - i
-	f.Stmt = f.Stmt[:i]
+	n := len(f.Stmt) - len(kept)
+	f.Stmt = kept
 	return n
 }
 
-- 
2.43.0


From a581d3b4a06ba51a78f3cfb4ac01fb5529d684b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 03/33] fix: keep the comments of list literals that are
 concatenated when an attribute is resolved

---
 edit/edit.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/edit/edit.go b/edit/edit.go
index 81421ed..b2081d6 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -528,6 +528,28 @@ func ContainsComments(expr build.Expr, str string) bool {
 	return false
 }
 
+// concatLists returns the concatenation of the list literals x and y, with the comments of both.
+func concatLists(x, y *build.ListExpr) *build.ListExpr {
+	// The comments before the closing bracket of x end up between the elements of x and those of y.
+	middle := append(append([]build.Comment{}, x.End.Before...), y.Before...)
+	end := y.End
+	if len(y.List) > 0 {
+		first := y.List[0].Comment()
+		first.Before = append(middle, first.Before...)
+	} else {
+		end.Before = append(middle, end.Before...)
+	}
+	return &build.ListExpr{
+		Comments: build.Comments{
+			Before: x.Before,
+			Suffix: append(append([]build.Comment{}, x.Suffix...), y.Suffix...),
+			After:  append(append([]build.Comment{}, x.After...), y.After...),
+		},
+		List: append(x.List, y.List...),
+		End:  end,
+	}
+}
+
 // RemoveEmptySelectsAndConcatLists iterates the tree in order to turn
 // empty selects into empty lists and adjacent lists are concatenated
 func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
@@ -541,7 +563,7 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 			y, yIsList := e.Y.(*build.ListExpr)
 
 			if xIsList && yIsList {
-				return &build.ListExpr{List: append(x.List, y.List...)}
+				return concatLists(x, y)
 			}
 
 			if xIsList && len(x.List) == 0 {
-- 
2.43.0


From fca5dff9b814c3004ade82e499c2ecf3ac8f92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 04/33] fix: extract nothing from a one-branch select with
 elements that are no strings

AddValueToList removes only strings from selects, so such elements were duplicated by every resolution of the attribute.
---
 edit/edit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index b2081d6..eddb84b 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -646,6 +646,11 @@ func SelectListsIntersection(sel *build.CallExpr, pkg string) (intersection []bu
 	}
 
 	if val, ok := dict.List[0].Value.(*build.ListExpr); ok {
+		for _, elem := range val.List {
+			if _, ok := elem.(*build.StringExpr); !ok {
+				return nil
+			}
+		}
 		intersection = make([]build.Expr, len(val.List))
 		copy(intersection, val.List)
 	}
-- 
2.43.0


From adea35844e7c1fdd8929ff34dc026b1178888ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 05/33] fix: DictionaryDelete keeps the entries whose key is no
 string literal

---
 edit/edit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index eddb84b..49d1895 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -969,12 +969,10 @@ func DictionaryDelete(dict *build.DictExpr, key string) (deleted build.Expr) {
 	deleted = nil
 	var all []*build.KeyValueExpr
 	for _, kv := range dict.List {
-		if k, ok := kv.Key.(*build.StringExpr); ok {
-			if k.Value == key {
-				deleted = kv
-			} else {
-				all = append(all, kv)
-			}
+		if k, ok := kv.Key.(*build.StringExpr); ok && k.Value == key {
+			deleted = kv
+		} else {
+			all = append(all, kv)
 		}
 	}
 	dict.List = all
-- 
2.43.0


From f6bfd48922729255c6501e74ce24e5886bcbeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 06/33] fix: ReplaceLoad removes every replaced symbol,
 adjacent ones included

---
 edit/edit.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 49d1895..909d9cf 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1217,17 +1217,14 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
+		var keptFrom, keptTo []*build.Ident
 		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+			if !toSymbols[to.Name] {
+				keptFrom = append(keptFrom, load.From[i])
+				keptTo = append(keptTo, to)
 			}
 		}
+		load.From, load.To = keptFrom, keptTo
 
 		if len(load.To) > 0 {
 			all = append(all, load)
-- 
2.43.0


From 4af045d79160b96044c18bd3e96be8cc3c7cb2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 07/33] fix: append symbols to a load in the order they were
 given, not in map order

---
 edit/edit.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 909d9cf..dd48602 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1100,9 +1100,12 @@ func AppendToLoad(load *build.LoadStmt, from, to []string) bool {
 	}
 
 	// Append the remaining loads to the load statement.
-	for s := range symbolsToLoad {
-		load.From = append(load.From, &build.Ident{Name: symbolsToLoad[s]})
-		load.To = append(load.To, &build.Ident{Name: s})
+	for _, s := range to {
+		if f, ok := symbolsToLoad[s]; ok {
+			load.From = append(load.From, &build.Ident{Name: f})
+			load.To = append(load.To, &build.Ident{Name: s})
+			delete(symbolsToLoad, s)
+		}
 	}
 	return true
 }
@@ -1134,13 +1137,14 @@ func appendLoad(stmts []build.Expr, location string, from, to []string) bool {
 	}
 
 	// Append the remaining loads to the last load location.
-	from = []string{}
-	to = []string{}
-	for t, f := range symbolsToLoad {
-		from = append(from, f)
-		to = append(to, t)
+	var newFrom, newTo []string
+	for _, t := range to {
+		if f, ok := symbolsToLoad[t]; ok {
+			newFrom = append(newFrom, f)
+			newTo = append(newTo, t)
+		}
 	}
-	AppendToLoad(lastLoad, from, to)
+	AppendToLoad(lastLoad, newFrom, newTo)
 	return true
 }
 
-- 
2.43.0


From c181e5b6ac9e94694818ab8b48a52cc5edd2d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 08/33] fix: a load alias given on the command line applies to
 every edited file

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..cfd89d6 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -283,7 +283,7 @@ func findInsertionIndex(env CmdEnvironment) (bool, int, error) {
 // splitLoadArgs splits arguments of form <[to=]from>
 // into a slice of froms and a slice of tos.
 func splitLoadArgs(args []string) ([]string, []string) {
-	from := args
+	from := append([]string{}, args...)
 	to := append([]string{}, args...)
 	for i := range from {
 		if s := strings.SplitN(from[i], "=", 2); len(s) == 2 {
-- 
2.43.0


From 54e603c24fd682c1353da95d45f72bc0034e1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 09/33] fix: bzlmod.NewUseRepo does not overwrite the
 statements of the given file

---
 edit/bzlmod/bzlmod.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 62200f7..4ffa5c7 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -113,7 +113,11 @@ func NewUseRepo(f *build.File, proxies []string) (*build.File, *build.CallExpr)
 			&build.Ident{Name: proxy},
 		},
 	}
-	stmt := append(f.Stmt[:lastUsage+1], append([]build.Expr{useRepo}, f.Stmt[lastUsage+1:]...)...)
+	// Build a new slice, appending to f.Stmt[:lastUsage+1] would overwrite the statements of f.
+	stmt := make([]build.Expr, 0, len(f.Stmt)+1)
+	stmt = append(stmt, f.Stmt[:lastUsage+1]...)
+	stmt = append(stmt, useRepo)
+	stmt = append(stmt, f.Stmt[lastUsage+1:]...)
 
 	return &build.File{Path: f.Path, Pkg: f.Pkg, Label: f.Label, WorkspaceRoot: f.WorkspaceRoot, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
 }
-- 
2.43.0


From 27220e1565640ff3164b7f8936b25a61f2692c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 10/33] fix: bzlmod.AddRepoUsages does not add a repository
 listed twice as two arguments

---
 edit/bzlmod/bzlmod.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 4ffa5c7..99d77d5 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -150,6 +150,7 @@ func AddRepoUsages(useRepos []*build.CallExpr, repos ...string) {
 		if _, ok := seen[repo]; ok {
 			continue
 		}
+		seen[repo] = struct{}{}
 		// Sorting of use_repo arguments is handled by Buildify.
 		// TODO: Add a keyword argument instead if repo is of the form "key=value".
 		lastUseRepo.List = append(lastUseRepo.List, &build.StringExpr{Value: repo})
-- 
2.43.0


From 4811f041b2bc7e5a22aaee6282b862d93ce7dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 11/33] fix: use_repo_add and use_repo_remove accept absolute
 labels of the main repository

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index cfd89d6..ee27143 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -888,7 +888,7 @@ func cmdFormat(opts *Options, env CmdEnvironment) (*build.File, error) {
 func isExtensionLabel(arg string) bool {
 	// Labels referencing extensions are either absolute or repo-absolute. Repository names are not
 	// allowed to contain "@" or "/".
-	return strings.HasPrefix(arg, "@") || strings.HasSuffix(arg, "//")
+	return strings.HasPrefix(arg, "@") || strings.HasPrefix(arg, "//")
 }
 
 func cmdFix(opts *Options, env CmdEnvironment) (*build.File, error) {
-- 
2.43.0


From 848c96fcc65541f4e99c93f1b93ce369720aabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 12/33] fix: use_repo_add dev without an extension name is an
 error, not a crash

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index ee27143..c0063f1 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -846,6 +846,9 @@ func cmdImplUseRepo(env CmdEnvironment, mode string) (*build.File, error) {
 	var proxies []string
 	var repos []string
 	if isExtensionLabel(args[0]) {
+		if len(args) < 2 {
+			return nil, fmt.Errorf("%s: missing name of the extension defined in %q", mode, args[0])
+		}
 		extBzlFile := args[0]
 		extName := args[1]
 
-- 
2.43.0


From 29ef060399a4027e5b2927efc463d459413fe9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 13/33] fix: sort the chunks that follow a chunk with
 duplicates

After duplicates had been removed from a chunk, the next chunk was looked
for at its old position, so that its first elements were left unsorted.
---
 build/rewrite.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..04883d5 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -671,6 +671,7 @@ func sortStringExprs(list []Expr) []Expr {
 				list[i+offset] = key.x
 			}
 			list = append(list[:(i+len(chunk))], list[j:]...)
+			j = i + len(chunk)
 		}
 
 		i = j
-- 
2.43.0


From 1d75381a65da79ecd72043ba19a6b3bdad0b66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 14/33] fix: compare load paths by a strict weak order

A path whose components are a prefix of another path's (up to case) was
compared with it by bytes in one direction and by length in the other, so
that the order of load statements depended on the order they came in.
---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 04883d5..d366148 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1076,6 +1076,10 @@ func comparePaths(path1, path2 string) bool {
 		}
 	}
 
+	if len(chunks1) < len(chunks2) {
+		return true
+	}
+
 	// No case-insensitive difference detected. Likely the difference is just in
 	// the case of some symbols, compare case-sensitively for the determinism.
 	return path1 <= path2
-- 
2.43.0


From 60d963584e5c01d9a9bcf16e27f27bd9a786b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 15/33] fix: keep the comments of duplicate strings at the end
 of a list

Comments before a duplicate string were lost when no other string followed.
---
 build/rewrite.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index d366148..a29f32b 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -537,13 +537,15 @@ func deduplicateStringList(x Expr) {
 		return
 	}
 
-	list.List = deduplicateStringExprs(list.List)
+	list.List = deduplicateStringExprs(list.List, &list.End)
 }
 
 // deduplicateStringExprs removes duplicate string expressions from a slice
 // without reordering its elements.
-// Any suffix-comments are lost, any before- and after-comments are preserved.
-func deduplicateStringExprs(list []Expr) []Expr {
+// Any suffix-comments are lost, any before- and after-comments are preserved:
+// they are moved to the next remaining element or, if there is none, to the
+// end of the list.
+func deduplicateStringExprs(list []Expr, end *End) []Expr {
 	var comments []Comment
 	alreadySeen := make(map[string]bool)
 	var deduplicated []Expr
@@ -569,6 +571,9 @@ func deduplicateStringExprs(list []Expr) []Expr {
 		}
 		deduplicated = append(deduplicated, value)
 	}
+	if len(comments) > 0 {
+		end.Before = append(comments, end.Before...)
+	}
 	return deduplicated
 }
 
@@ -582,7 +587,7 @@ func SortStringList(x Expr) {
 	}
 
 	if doNotSort(list.List[0]) {
-		list.List = deduplicateStringExprs(list.List)
+		list.List = deduplicateStringExprs(list.List, &list.End)
 		return
 	}
 
@@ -1203,7 +1208,7 @@ func sortUseRepoPositionals(f *File, _ *Rewriter) {
 			// Respect the "do not sort" comment on both the first argument and the first repository
 			// name.
 			if doNotSort(call) || doNotSort(call.List[0]) || doNotSort(call.List[1]) {
-				call.List = deduplicateStringExprs(call.List)
+				call.List = deduplicateStringExprs(call.List, &call.End)
 			} else {
 				// Keyword arguments do not have to be sorted here as this has already been done by
 				// the generic callsort rewriter pass.
-- 
2.43.0


From 0cbf2604a968050fb80000c045e91504aec69700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 16/33] fix: merging loads of the same file keeps the comments
 of the merged statement

---
 build/rewrite.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index a29f32b..61966d4 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1053,11 +1053,25 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 		// Move loaded symbols to the existing load statement
 		previousLoad.From = append(previousLoad.From, load.From...)
 		previousLoad.To = append(previousLoad.To, load.To...)
+		// Keep the comments of the statement that goes away
+		moduleComments := load.Module.Comment()
+		load.Before = append(load.Before, moduleComments.Before...)
+		moduleComments.Before = nil
+		appendComments(previousLoad.Comment(), load.Comment())
+		appendComments(previousLoad.Module.Comment(), moduleComments)
+		appendComments(previousLoad.Rparen.Comment(), load.Rparen.Comment())
 		// Remove the current statement
 		f.Stmt[stmtIndex] = nil
 	}
 }
 
+// appendComments appends the comments in src to those in dst.
+func appendComments(dst, src *Comments) {
+	dst.Before = append(dst.Before, src.Before...)
+	dst.Suffix = append(dst.Suffix, src.Suffix...)
+	dst.After = append(dst.After, src.After...)
+}
+
 // comparePaths compares two strings as if they were paths (the path delimiter,
 // '/', should be treated as smallest symbol).
 func comparePaths(path1, path2 string) bool {
-- 
2.43.0


From 2aa4b09eec60a2911104841b70e2098d1bc99253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 17/33] fix: of symbols loaded twice under one name the later
 one remains in long loads too

---
 build/rewrite.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 61966d4..44248f4 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1309,7 +1309,8 @@ func (args *loadArgs) deduplicate() {
 // SortLoadArgs sorts a load statement arguments (lexicographically, but positional first)
 func SortLoadArgs(load *LoadStmt) bool {
 	args := loadArgs{From: load.From, To: load.To}
-	sort.Sort(&args)
+	// The order of symbols with the same name decides which of them remains.
+	sort.Stable(&args)
 	args.deduplicate()
 	load.From = args.From
 	load.To = args.To
-- 
2.43.0


From db0226104fbb000d729267284c7dfb1630a27b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 18/33] fix: formatting a string with a backslash before a
 non-Latin-1 character does not crash

---
 build/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/quote.go b/build/quote.go
index 03bcdb6..65e3ae8 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -251,7 +251,7 @@ func IsCorrectEscaping(value string) bool {
 			continue
 		}
 
-		if ok := escapable[ch]; !ok {
+		if int(ch) >= len(escapable) || !escapable[ch] {
 			return false
 		}
 		escaped = false
-- 
2.43.0


From 1e3cd49177facc194fd624bef0dd65dd9ffb334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 19/33] fix: formatting keeps a zero exponent of a float

---
 build/rewrite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 44248f4..b1e3606 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1451,7 +1451,11 @@ func editFloats(f *File, _ *Rewriter) {
 			// Invalid float, skip rewriting.
 			return
 		}
-		l.Token = parts[0] + "e" + strings.TrimLeft(parts[1], "0+")
+		exponent := strings.TrimLeft(parts[1], "0+")
+		if exponent == "" {
+			exponent = "0" // The exponent consists of zeroes only
+		}
+		l.Token = parts[0] + "e" + exponent
 	})
 }
 
-- 
2.43.0


From 422e8516c31def4de411c18051d611fdfc4f88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 20/33] fix: floats with leading zeroes are not turned into
 octal integers

---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index b1e3606..fa609d6 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1420,6 +1420,10 @@ func editOctals(f *File, _ *Rewriter) {
 		if !ok {
 			return
 		}
+		if strings.ContainsAny(l.Token, ".eE") {
+			// A float, its leading zeroes have no special meaning
+			return
+		}
 		if len(l.Token) > 1 && l.Token[0] == '0' && l.Token[1] >= '0' && l.Token[1] <= '9' {
 			l.Token = "0o" + l.Token[1:]
 		}
-- 
2.43.0


From 5dbf66413413c8f7146ede2372ecb93d7e5c1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:06 +0000
Subject: [PATCH 21/33] fix: a warning category requested twice is checked once

---
 buildifier/config/validation.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildifier/config/validation.go b/buildifier/config/validation.go
index 87cc393..241e573 100644
--- a/buildifier/config/validation.go
+++ b/buildifier/config/validation.go
@@ -114,12 +114,14 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 		// "default set of warnings + something - something".
 		plus := map[string]bool{}
 		minus := map[string]bool{}
+		seen := map[string]bool{}
 		for _, warning := range strings.Split(*warnings, ",") {
 			if strings.HasPrefix(warning, "+") {
 				plus[warning[1:]] = true
 			} else if strings.HasPrefix(warning, "-") {
 				minus[warning[1:]] = true
-			} else {
+			} else if !seen[warning] {
+				seen[warning] = true
 				warningsList = append(warningsList, warning)
 			}
 		}
@@ -128,7 +130,7 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 		}
 		if len(warningsList) == 0 {
 			for _, warning := range *defaultWarnings {
-				if !minus[warning] {
+				if !minus[warning] && !plus[warning] {
 					warningsList = append(warningsList, warning)
 				}
 			}
-- 
2.43.0


From 855e50e7a54726d2d5d47adcd5d8ccf6601fb1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 22/33] fix: disabling a warning category does not disable
 those its name begins with

---
 warn/warn.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 65b7882..3649b8f 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -22,9 +22,9 @@ import (
 	"log"
 	"os"
 	"sort"
+	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
-	"github.com/bazelbuild/buildtools/edit"
 )
 
 // LintMode is an enum representing a linter mode. Can be either "warn", "fix", or "suggest"
@@ -310,8 +310,40 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
-	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
-		edit.ContainsComments(expr, "buildozer: disable="+warning)
+	comments := expr.Comment()
+	for _, group := range [][]build.Comment{comments.Before, comments.Suffix, comments.After} {
+		for _, comment := range group {
+			if disablesWarning(comment.Token, "buildifier: disable="+warning) ||
+				disablesWarning(comment.Token, "buildozer: disable="+warning) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// disablesWarning checks if a comment contains the given marker (case-insensitively). The category
+// of the warning that ends the marker must not continue in the comment: disabling "native-cc-info"
+// doesn't disable "native-cc".
+func disablesWarning(comment, marker string) bool {
+	comment = strings.ToLower(comment)
+	marker = strings.ToLower(marker)
+	for {
+		index := strings.Index(comment, marker)
+		if index < 0 {
+			return false
+		}
+		end := index + len(marker)
+		if end == len(comment) || !isCategoryByte(comment[end]) {
+			return true
+		}
+		comment = comment[index+1:]
+	}
+}
+
+// isCategoryByte checks if a byte can be a part of a name of a warning category.
+func isCategoryByte(b byte) bool {
+	return b == '-' || b == '_' || 'a' <= b && b <= 'z' || '0' <= b && b <= '9'
 }
 
 // DisabledWarning checks if the warning was disabled by a comment.
-- 
2.43.0


From 888b593677f6f1a01dc4aefd47786d8efba4f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:48 +0000
Subject: [PATCH 23/33] fix: reporting a redundant cfg of an attribute does not
 change the file

---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..64fa42d 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -395,7 +395,7 @@ func attrConfigurationWarning(f *build.File) []*LinterFinding {
 		newCall := *call
 		switch value.Value {
 		case "data":
-			newCall.List = append(newCall.List[:i], newCall.List[i+1:]...)
+			newCall.List = append(append([]build.Expr{}, call.List[:i]...), call.List[i+1:]...)
 			findings = append(findings,
 				makeLinterFinding(param, `cfg = "data" for attr definitions has no effect and should be removed.`,
 					LinterReplacement{expr, &newCall}))
-- 
2.43.0


From dde8201dfd3e101fb694d6aad828891d048eac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 24/33] fix: suggesting the fix of a warning does not change
 the file

---
 warn/warn.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 3649b8f..105acae 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -408,7 +408,7 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 	return findings
 }
 
-// formatWithFix applies a fix, formats a file, and rolls back the fix
+// formatWithFix applies a fix, formats a copy of the file, and rolls back the fix
 func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 	for i := range *replacements {
 		r := (*replacements)[i]
@@ -417,7 +417,18 @@ func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 		defer func() { *r.Old = old }()
 	}
 
-	return build.Format(f)
+	// Formatting rewrites the file it's given, which the rolling back of the fix can't undo (and which
+	// can move the nodes the fix is about). Rewrite a copy instead.
+	contents := build.FormatWithoutRewriting(f)
+	fixed, err := build.ParseDefault(f.Path, contents)
+	if err != nil {
+		return contents
+	}
+	fixed.Type = f.Type
+	fixed.Pkg = f.Pkg
+	fixed.Label = f.Label
+	fixed.WorkspaceRoot = f.WorkspaceRoot
+	return build.Format(fixed)
 }
 
 // calculateDifference compares two file contents and returns a replacement in the form of
-- 
2.43.0


From 54bbcad6c7f4153e95f2a527f056a38cb2a262fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:16 +0000
Subject: [PATCH 25/33] fix: the order of the warnings of a file does not vary
 from run to run

---
 warn/warn.go              |  2 +-
 warn/warn_control_flow.go | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 105acae..2a27862 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -404,7 +404,7 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 			os.Exit(1)
 		}
 	}
-	sort.Slice(findings, func(i, j int) bool { return findings[i].Start.Line < findings[j].Start.Line })
+	sort.SliceStable(findings, func(i, j int) bool { return findings[i].Start.Line < findings[j].Start.Line })
 	return findings
 }
 
diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..9e0fafe 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -392,6 +393,21 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	return assigned, used
 }
 
+// sortedIdents returns the idents in the order of their positions in the file.
+func sortedIdents(idents map[*build.Ident]bool) []*build.Ident {
+	result := make([]*build.Ident, 0, len(idents))
+	for ident := range idents {
+		result = append(result, ident)
+	}
+	sort.Slice(result, func(i, j int) bool {
+		if result[i].NamePos.Byte != result[j].NamePos.Byte {
+			return result[i].NamePos.Byte < result[j].NamePos.Byte
+		}
+		return result[i].Name < result[j].Name
+	})
+	return result
+}
+
 // unusedVariableCheck checks for unused variables inside a given node `stmt` (either *build.File or
 // *build.DefStmt) and variables that are used in the current scope or subscopes,
 // but not defined here.
@@ -480,10 +496,10 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 			for symbol := range used {
 				usedSymbols[symbol.Name] = true
 			}
-			for symbol, isSuppressed := range assigned {
+			for _, symbol := range sortedIdents(assigned) {
 				if _, ok := definedSymbols[symbol.Name]; !ok {
 					definedSymbols[symbol.Name] = symbol
-					if isSuppressed {
+					if assigned[symbol] {
 						suppressedWarnings[symbol.Name] = true
 					}
 				}
@@ -550,6 +566,13 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 
 func unusedVariableWarning(f *build.File) []*LinterFinding {
 	_, findings := unusedVariableCheck(f, f)
+	// The symbols are collected in maps, make the order of the findings the same on every run.
+	sort.Slice(findings, func(i, j int) bool {
+		if findings[i].Start.Byte != findings[j].Start.Byte {
+			return findings[i].Start.Byte < findings[j].Start.Byte
+		}
+		return findings[i].Message < findings[j].Message
+	})
 	return findings
 }
 
@@ -783,7 +806,7 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 				// the comprehension.
 
 				_, used := extractIdentsFromStmt(expr)
-				for ident := range used {
+				for _, ident := range sortedIdents(used) {
 					callbackIfNeeded(ident)
 				}
 
-- 
2.43.0


From 19659e6f7c2043ae9f40c943b8825aeca3785489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 26/33] fix: a formatted file that cannot be written to the
 standard output is an error

---
 buildifier/buildifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 60124fc..ef2e1dc 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -353,7 +353,10 @@ func (b *buildifier) processFile(filename string, data []byte, displayFileNames
 	case "pipe":
 		// pipe mode - reading from stdin, writing to stdout.
 		// ("pipe" is not from the command line; it is set above in main.)
-		os.Stdout.Write(ndata)
+		if _, err := os.Stdout.Write(ndata); err != nil {
+			fmt.Fprintf(os.Stderr, "buildifier: error writing output: %v\n", err)
+			return fileDiagnostics, 3
+		}
 
 	case "fix":
 		// fix mode: update files in place as needed.
-- 
2.43.0


From 69c08e5bf9a26da28ede1abed9f0b11ce455980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 27/33] fix: comments of a symbol that is loaded twice are kept

---
 build/rewrite.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index fa609d6..ea5be20 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1292,9 +1292,9 @@ func (args *loadArgs) deduplicate() {
 	var from, to []*Ident
 	for i := range args.To {
 		if len(to) > 0 && to[len(to)-1].Name == args.To[i].Name {
-			// Overwrite
-			from[len(from)-1] = args.From[i]
-			to[len(to)-1] = args.To[i]
+			// Overwrite, but keep the comments
+			from[len(from)-1] = withCommentsOf(args.From[i], from[len(from)-1])
+			to[len(to)-1] = withCommentsOf(args.To[i], to[len(to)-1])
 			args.modified = true
 		} else {
 			// Just append
@@ -1306,6 +1306,15 @@ func (args *loadArgs) deduplicate() {
 	args.To = to
 }
 
+// withCommentsOf returns x with the comments of previous in front of its own ones.
+func withCommentsOf(x, previous *Ident) *Ident {
+	ident := *x
+	ident.Comments = Comments{}
+	appendComments(&ident.Comments, previous.Comment())
+	appendComments(&ident.Comments, x.Comment())
+	return &ident
+}
+
 // SortLoadArgs sorts a load statement arguments (lexicographically, but positional first)
 func SortLoadArgs(load *LoadStmt) bool {
 	args := loadArgs{From: load.From, To: load.To}
-- 
2.43.0


From b5161bc1dc75f364d03bb249b9a69232cdb105c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 28/33] fix: comments of a renamed symbol of a compact load do
 not change its layout when it is formatted again

---
 build/print.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/build/print.go b/build/print.go
index 0492dd4..d1d3fa8 100644
--- a/build/print.go
+++ b/build/print.go
@@ -806,11 +806,16 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				arg = from.asString()
 				arg.Comment().Before = to.Comment().Before
 			} else {
+				// The comments belong to the whole argument.
+				lhs, rhs := *to, from.asString()
 				arg = &AssignExpr{
-					LHS: to,
-					Op:  "=",
-					RHS: from.asString(),
+					Comments: Comments{Before: lhs.Before, Suffix: rhs.Suffix},
+					LHS:      &lhs,
+					Op:       "=",
+					RHS:      rhs,
 				}
+				lhs.Before = nil
+				rhs.Suffix = nil
 			}
 			args = append(args, arg)
 		}
-- 
2.43.0


From 1219b58c0b261ef20f92f35f83c147f70581cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 29/33] fix: a comment behind the header of a function without
 parameters stays in the function

---
 build/lex.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..91c93bf 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -846,8 +846,20 @@ func (in *input) assignComments() {
 }
 
 func (in *input) assignSuffixComments() {
+	// Comments behind the header of a function without parameters have no syntax immediately
+	// before them that belongs to the function, they go to the beginning of its body.
+	var suffix []Comment
+	functions := in.functionsWithoutParams()
+	for _, comment := range in.suffixComments {
+		if def := functions[comment.Start.Line]; def != nil && def.ColonPos.Byte <= comment.Start.Byte {
+			body := def.Body[0].Comment()
+			body.Before = append(body.Before, comment)
+			continue
+		}
+		suffix = append(suffix, comment)
+	}
+
 	// Assign suffix comments to syntax immediately before.
-	suffix := in.suffixComments
 	for i := len(in.post) - 1; i >= 0; i-- {
 		x := in.post[i]
 
@@ -876,6 +888,22 @@ func (in *input) assignSuffixComments() {
 	in.file.Before = append(in.file.Before, suffix...)
 }
 
+// functionsWithoutParams returns the definitions of functions without parameters and with a body
+// below the header, by the number of the line on which their header ends.
+func (in *input) functionsWithoutParams() map[int]*DefStmt {
+	functions := make(map[int]*DefStmt)
+	for _, x := range in.post {
+		def, ok := x.(*DefStmt)
+		if !ok || len(def.Params) > 0 || def.Type != nil || len(def.Body) == 0 {
+			continue
+		}
+		if start, _ := def.Body[0].Span(); start.Line > def.ColonPos.Line {
+			functions[def.ColonPos.Line] = def
+		}
+	}
+	return functions
+}
+
 func (in *input) assignLineComments() {
 	// Assign line comments to syntax immediately following.
 	line := in.lineComments
-- 
2.43.0


From b83e52f40d310f8740af27a8e27463c0b30adaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:18 +0000
Subject: [PATCH 30/33] fix: edits of dictionary entries and comprehension
 clauses are written back

---
 build/walk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/build/walk.go b/build/walk.go
index dd279a7..f90756a 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -171,11 +171,14 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.List {
 			e := Expr(v.List[i])
 			f(&e)
+			if kv, ok := e.(*KeyValueExpr); ok {
+				v.List[i] = kv
+			}
 		}
 	case *Comprehension:
 		f(&v.Body)
-		for _, c := range v.Clauses {
-			f(&c)
+		for i := range v.Clauses {
+			f(&v.Clauses[i])
 		}
 	case *IfClause:
 		f(&v.Cond)
-- 
2.43.0


From f68b52254b5965b3f50c23a8bbf47126e20d7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 31/33] fix: behind a nested function the enclosing function is
 known again

---
 bzlenv/bzlenv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 40394af..08c3457 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -195,11 +195,12 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.DefStmt:
 		env.enterBlock()
+		enclosing := env.Function
 		env.Function = node
 		declareParams(node, env)
 		declareLocalVariables(node.Body, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
-		env.Function = nil
+		env.Function = enclosing
 		env.exitBlock()
 	case *build.Comprehension:
 		env.enterBlock()
-- 
2.43.0


From b3eb09be54eea0b19d32123decc46b179a0ba9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 32/33] fix: nested functions are declared in the function
 around them

---
 bzlenv/bzlenv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 08c3457..61eb936 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -182,6 +182,8 @@ func declareLocalVariables(stmts []build.Expr, env *Environment) {
 				env.declare(id.Name, Local, node)
 			}
 			declareLocalVariables(node.Body, env)
+		case *build.DefStmt:
+			env.declare(node.Name, Function, node)
 		}
 	}
 }
-- 
2.43.0


From cc433f413d4341c6f5bf665cedc8a957a2578a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 33/33] fix: names in parentheses are declared when they are
 assigned

---
 bzlenv/bzlenv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 61eb936..8400645 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -152,6 +152,8 @@ func CollectLValues(node build.Expr) []*build.Ident {
 		for _, item := range node.List {
 			result = append(result, CollectLValues(item)...)
 		}
+	case *build.ParenExpr:
+		result = append(result, CollectLValues(node.X)...)
 	}
 	return result
 }
-- 
2.43.0


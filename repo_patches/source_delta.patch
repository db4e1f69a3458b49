From e72a73d907b93a67d7a157a56075e0706637377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 01/22] fix: decode quoted file names in patch headers

Names with special characters, quotes or non ASCII characters are printed by
git in quotes. They were kept in escaped form, with quotes for renames, and
names with both special characters and spaces were lost.
---
 ripsrc/history3/incblame/parse.go       |  6 ++--
 ripsrc/history3/incblame/parse_utils.go | 41 ++++++++++++++++++-----
 ripsrc/pkg/gitpath/gitpath.go           | 44 +++++++++++++++++++++++++
 3 files changed, 80 insertions(+), 11 deletions(-)
 create mode 100644 ripsrc/pkg/gitpath/gitpath.go

diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 08b95ff..ce81421 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -4,6 +4,8 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+
+	"github.com/pinpt/ripsrc/ripsrc/pkg/gitpath"
 )
 
 // Diff is change made to one file.
@@ -122,11 +124,11 @@ func (p *parser) Parse() (res Diff) {
 	}
 
 	if p.preMeta[metaRenameFrom] != "" {
-		p.diff.PathPrev = p.preMeta[metaRenameFrom]
+		p.diff.PathPrev = gitpath.Unquote(p.preMeta[metaRenameFrom])
 		if p.preMeta[metaRenameTo] == "" {
 			panic("has rename from, but not rename to")
 		}
-		p.diff.Path = p.preMeta[metaRenameTo]
+		p.diff.Path = gitpath.Unquote(p.preMeta[metaRenameTo])
 	}
 
 	if p.preMeta[metaBinaryFiles] != "" {
diff --git a/ripsrc/history3/incblame/parse_utils.go b/ripsrc/history3/incblame/parse_utils.go
index 465e6da..cb17aa8 100644
--- a/ripsrc/history3/incblame/parse_utils.go
+++ b/ripsrc/history3/incblame/parse_utils.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+
+	"github.com/pinpt/ripsrc/ripsrc/pkg/gitpath"
 )
 
 func startsWith(b []byte, prefix string) bool {
@@ -107,18 +109,18 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 		return "", "", fmt.Errorf("invalid format for diff decl, no space sep %s", diff)
 	}
 	remPrefix := func(data []byte, pr string) (string, error) {
-		d2 := data
-		if len(d2) >= 2 && d2[0] == '"' && d2[len(d2)-1] == '"' {
-			d2 = d2[1 : len(d2)-1]
-		}
-		if len(d2) <= len(pr) || string(d2[0:len(pr)]) != pr {
+		d2 := gitpath.Unquote(string(data))
+		if len(d2) <= len(pr) || d2[0:len(pr)] != pr {
 			return "", fmt.Errorf("invalid format for diff decl %s, removing prefix %s", diff, data)
 		}
-		return string(d2[len(pr):]), nil
+		return d2[len(pr):], nil
 	}
-	// simple case with no spaces in name
-	if spaceCount == 1 {
-		i := bytes.IndexByte(data, ' ')
+	// simple case with no spaces in name, or with at least one of the names in quotes
+	i := quotedDeclSep(data)
+	if spaceCount == 1 || i != -1 {
+		if i == -1 {
+			i = bytes.IndexByte(data, ' ')
+		}
 		if i == 0 || i == len(data) {
 			return "", "", fmt.Errorf("invalid format for diff decl %s", diff)
 		}
@@ -149,6 +151,27 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 	return
 }
 
+// quotedDeclSep returns the index of the space separating the names in diff declaration if at least one of them is in quotes, or -1.
+func quotedDeclSep(data []byte) int {
+	if data[0] != '"' {
+		// name not in quotes does not contain quotes
+		return bytes.Index(data, []byte(" \""))
+	}
+	for i := 1; i < len(data); i++ {
+		if data[i] == '\\' {
+			i++
+			continue
+		}
+		if data[i] == '"' {
+			if i+1 < len(data) && data[i+1] == ' ' {
+				return i + 1
+			}
+			break
+		}
+	}
+	return -1
+}
+
 func countByte(data []byte, b byte) (res int) {
 	for _, v := range data {
 		if v == b {
diff --git a/ripsrc/pkg/gitpath/gitpath.go b/ripsrc/pkg/gitpath/gitpath.go
new file mode 100644
index 0000000..f65a592
--- /dev/null
+++ b/ripsrc/pkg/gitpath/gitpath.go
@@ -0,0 +1,44 @@
+// Package gitpath decodes file names printed by git.
+package gitpath
+
+// Unquote returns the file name for the name printed by git. Names containing special characters are printed in
+// double quotes using C-style escapes, see core.quotePath in git-config. Names not in quotes are returned as is.
+func Unquote(s string) string {
+	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
+		return s
+	}
+	s = s[1 : len(s)-1]
+	res := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 == len(s) {
+			res = append(res, s[i])
+			continue
+		}
+		i++
+		switch c := s[i]; c {
+		case 'a':
+			res = append(res, '\a')
+		case 'b':
+			res = append(res, '\b')
+		case 't':
+			res = append(res, '\t')
+		case 'n':
+			res = append(res, '\n')
+		case 'v':
+			res = append(res, '\v')
+		case 'f':
+			res = append(res, '\f')
+		case 'r':
+			res = append(res, '\r')
+		case '0', '1', '2', '3':
+			if i+2 < len(s) {
+				res = append(res, (c-'0')<<6|(s[i+1]-'0')<<3|(s[i+2]-'0'))
+				i += 2
+			}
+		default:
+			// double quote and backslash
+			res = append(res, c)
+		}
+	}
+	return string(res)
+}
-- 
2.43.0


From de94ee7951a78c1733c6d2f4280b158b834d83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 02/22] fix: merge that changes a file's type no longer reports
 it deleted

---
 ripsrc/history3/process/process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ebdc1be..52cf2f3 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -557,6 +557,10 @@ EACHFILE:
 		if isDelete {
 			// only showing deletes and files changed in merge comparent to at least one parent
 			pathPrev := k[len(deletedPrefix):]
+			if files[pathPrev] {
+				// replaced by a file of another type, which is not a delete
+				continue
+			}
 			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
 			continue
 		}
-- 
2.43.0


From b03f5995fa445a3f8998dbdce58d896c4e1f42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 03/22] fix: keep commits without files in a checkpoint

---
 ripsrc/history3/process/repo/reader.go | 10 +++++++---
 ripsrc/history3/process/repo/writer.go |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 82b2f96..52b2e91 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -143,13 +143,17 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 				}
 				return nil, err
 			}
+			if _, ok := repo[obj.Commit]; !ok {
+				repo[obj.Commit] = map[string]*incblame.Blame{}
+			}
+			if obj.BlamePointer == 0 {
+				// commit without files
+				continue
+			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
 				panic("blame")
 			}
-			if _, ok := repo[obj.Commit]; !ok {
-				repo[obj.Commit] = map[string]*incblame.Blame{}
-			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
 		}
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 61657be..e4d1b35 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -84,6 +84,11 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	for ch, commit := range repo {
 
+		if len(commit) == 0 {
+			// note that commit exists, it could be a parent of the next one
+			writeRepoRow(ch, "", 0)
+		}
+
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
 				writeRepoRow(ch, fp, blp)
-- 
2.43.0


From 28b7516a63306ac3fd848011bd1bf5ef9180e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 04/22] fix: do not mix up lines with the same hash in a
 checkpoint

---
 ripsrc/history3/process/repo/writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index e4d1b35..1bd354c 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -1,6 +1,7 @@
 package repo
 
 import (
+	"bytes"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -69,7 +70,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	linePointerC := uint64(0)
 	linePointers := map[*incblame.Line]uint64{}
 
-	lineData := map[uint64]bool{}
+	lineData := map[uint64][]byte{}
 
 	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
 		r := &disk.DataRow{}
@@ -115,7 +116,13 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 				// line data
 				dp := xxhash.Sum64(l.Line)
-				if ok := lineData[dp]; !ok {
+				data, ok := lineData[dp]
+				for ok && !bytes.Equal(data, l.Line) {
+					// different data with the same hash, use the next free pointer
+					dp++
+					data, ok = lineData[dp]
+				}
+				if !ok {
 					ld := &sLineData{
 						Pointer: dp,
 						Data:    l.Line}
@@ -123,7 +130,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 					if err != nil {
 						return err
 					}
-					lineData[dp] = true
+					lineData[dp] = l.Line
 				}
 
 				l2 := &sLine{}
-- 
2.43.0


From 62a79f53a4905e61807cf3dc4ab6a18bb4d63e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 05/22] fix: commit metadata with lines over 64KB or ending in
 CR

---
 ripsrc/commitmeta/commitmeta.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fe7e689..3e7b914 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -154,13 +154,19 @@ func (s *Processor) Run(res chan Commit) error {
 	}()
 	parser.filejobs = fjChan
 
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		ok, err := parser.parse(scanner.Text())
+	// not using bufio.Scanner, because commit messages and names could be
+	// longer than the maximum token size
+	br := bufio.NewReader(r)
+	for {
+		line, readErr := br.ReadString('\n')
+		if readErr != nil && readErr != io.EOF {
+			return fmt.Errorf("error reading git log from %v. %v", s.repoDir, readErr)
+		}
+		ok, err := parser.parse(strings.TrimSuffix(line, "\n"))
 		if err != nil {
 			return fmt.Errorf("error processing commit from %v. %v", s.repoDir, err)
 		}
-		if !ok {
+		if !ok || readErr == io.EOF {
 			break
 		}
 	}
-- 
2.43.0


From edac6daec4dc0b4c571dfda93534c350171aefbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 06/22] fix: decode quoted and unusual file names in commit
 metadata

---
 ripsrc/commitmeta/commitmeta.go | 57 +++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 3e7b914..f1da2a8 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -15,6 +15,7 @@ import (
 	"time"
 
 	"github.com/pinpt/ripsrc/ripsrc/gitexec"
+	"github.com/pinpt/ripsrc/ripsrc/pkg/gitpath"
 )
 
 type Opts struct {
@@ -324,6 +325,16 @@ const (
 	parserStateDiff
 )
 
+// rawEntry is a file from the raw output
+type rawEntry struct {
+	// path is the path as printed by git
+	path string
+	// renamed is set for renames and copies, which have both paths in the stats
+	renamed bool
+	// name is the decoded new path
+	name string
+}
+
 type parser struct {
 	commits  chan<- Commit
 	filejobs chan<- *CommitFile
@@ -333,6 +344,26 @@ type parser struct {
 	total    int
 	ordinal  int64
 	state    parserState
+	// raw are the files of the current commit that do not have stats yet, stats follow in the same order
+	raw []rawEntry
+}
+
+// statsFilename returns the file name for the path printed in stats
+func (p *parser) statsFilename(path string) string {
+	for i, e := range p.raw {
+		if e.renamed || e.path == path {
+			p.raw = p.raw[i+1:]
+			return e.name
+		}
+	}
+	// merges do not have raw output before stats
+	fn, _, _ := getFilename(path)
+	return gitpath.Unquote(fn)
+}
+
+// unquotePath returns the file name for the path printed by git
+func unquotePath(b []byte) string {
+	return gitpath.Unquote(string(b))
 }
 
 func (p *parser) parse(line string) (bool, error) {
@@ -375,6 +406,7 @@ func (p *parser) parse(line string) (bool, error) {
 					//Previous: parentCommit,
 				}
 				p.total++
+				p.raw = nil
 				return true, nil
 			}
 			if bytes.HasPrefix(buf, parentsPrefix) {
@@ -419,15 +451,20 @@ func (p *parser) parse(line string) (bool, error) {
 				tok1 := bytes.Split(buf, space)
 				mask := tok1[1]
 				// fmt.Println(p.commit.SHA, line, string(mask))
+				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
+				action := tok2[0]
+				paths := tok2[1:]
+				p.raw = append(p.raw, rawEntry{
+					path:    string(paths[0]),
+					renamed: len(paths) > 1,
+					name:    unquotePath(paths[len(paths)-1]),
+				})
 				// if the mask isn't a regular file or deleted file, skip it
 				if !filenameMask.Match(mask) && !bytes.Equal(mask, deletedMask) {
 					return true, nil
 				}
-				tok2 := bytes.Split(bytes.Join(tok1[4:], space), tab)
-				action := tok2[0]
-				paths := tok2[1:]
 				if len(action) == 1 {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := unquotePath(paths[0])
 					cf := &CommitFile{
 						Filename: fn,
 						Status:   toCommitStatus(action),
@@ -436,8 +473,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, removePrefix) {
 					// rename
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := unquotePath(paths[0])
+					toFn := unquotePath(paths[1])
 					// panic("renaming [" + fromFn + "] => [" + toFn + "]")
 					p.commit.Files[fromFn] = &CommitFile{
 						Status:      GitFileCommitStatusRemoved,
@@ -457,8 +494,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, copyPrefix) {
 					// copy a file into a new file ... it's basically a new file
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := unquotePath(paths[0])
+					toFn := unquotePath(paths[1])
 					cf := &CommitFile{
 						Status:     GitFileCommitStatusAdded,
 						Filename:   toFn,
@@ -468,7 +505,7 @@ func (p *parser) parse(line string) (bool, error) {
 					p.commit.Files[toFn] = cf
 					p.filejobs <- cf
 				} else {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := unquotePath(paths[0])
 					cf := &CommitFile{
 						Status:   toCommitStatus(action),
 						Filename: fn,
@@ -485,7 +522,7 @@ func (p *parser) parse(line string) (bool, error) {
 			// handle the file stats output
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
-				fn, _, _ := getFilename(tok[2])
+				fn := p.statsFilename(tok[2])
 				file := p.commit.Files[fn]
 				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
 				if file == nil {
-- 
2.43.0


From 67c95cc62b46c19c8ff03c4ec366ac49eec697d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 07/22] fix: branch names in listing of branches

---
 ripsrc/branchmeta/branchmeta.go | 33 ++++++++++++++++++---------------
 ripsrc/branchmeta/default.go    |  6 +++---
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a1bcdb0..6d71eba 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -27,6 +27,11 @@ type BranchWithCommitTime struct {
 	CommitCommitterTime time.Time
 }
 
+const (
+	localPrefix  = "refs/heads/"
+	originPrefix = "refs/remotes/origin/"
+)
+
 func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	defaultBranch, err := getDefaultBranch(opts)
 	if err != nil {
@@ -35,13 +40,14 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(refname:short)@@@%(committerdate)",
+		// name is the last one because it can contain the separator
+		"%(objectname)@@@%(committerdate)@@@%(refname)",
 	}
+	refPrefix := localPrefix
 	if opts.UseOrigin {
-		args = append(args, "refs/remotes/origin")
-	} else {
-		args = append(args, "refs/heads")
+		refPrefix = originPrefix
 	}
+	args = append(args, strings.TrimSuffix(refPrefix, "/"))
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return nil, err
@@ -49,7 +55,7 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	lines := bytes.Split(data, []byte("\n"))
 	for _, line := range lines {
 		line := string(line)
-		line = strings.TrimSpace(line)
+		line = strings.TrimRight(line, "\r\n")
 		if len(line) == 0 {
 			continue
 		}
@@ -64,19 +70,17 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		}
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
-		b.Name = parts[1]
-		date, err := gittime.Parse(parts[2])
+		date, err := gittime.Parse(parts[1])
 		if err != nil {
 			panic("invalid date format")
 		}
 		b.CommitCommitterTime = date
-		if opts.UseOrigin {
-			if !strings.HasPrefix(b.Name, "origin/") {
-				panic("branch name does not have origin/ prefix")
-			}
-			b.Name = strings.TrimPrefix(b.Name, "origin/")
+		if !strings.HasPrefix(parts[2], refPrefix) {
+			panic("branch name does not have " + refPrefix + " prefix")
 		}
-		if b.Name == "HEAD" {
+		b.Name = strings.TrimPrefix(parts[2], refPrefix)
+		if opts.UseOrigin && b.Name == "HEAD" {
+			// not a branch, but a reference to the default branch of the remote
 			continue
 		}
 		if !opts.IncludeDefault && b.Name == defaultBranch {
@@ -95,14 +99,13 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 func getDefaultBranch(opts Opts) (string, error) {
 	args := []string{
 		"symbolic-ref",
-		"--short",
 		"HEAD",
 	}
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
+	res := strings.TrimPrefix(strings.TrimRight(string(data), "\r\n"), localPrefix)
 	if len(res) == 0 {
 		return "", errors.New("could not get the default branch name")
 	}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 72a7e31..ae189e7 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -27,15 +27,15 @@ func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 }
 
 func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--abbrev-ref", "HEAD"})
+	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--symbolic-full-name", "HEAD"})
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
+	res := strings.TrimRight(string(data), "\r\n")
 	if res == "HEAD" {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-	return res, nil
+	return strings.TrimPrefix(res, localPrefix), nil
 }
 
 func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-- 
2.43.0


From 09cde6b31ca3462b12e3dc3850b20b94ce123bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 08/22] fix: count of commits that branch is behind the default
 branch

---
 ripsrc/branches2/behind_branch.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/ripsrc/branches2/behind_branch.go b/ripsrc/branches2/behind_branch.go
index ed49bde..4fd6b83 100644
--- a/ripsrc/branches2/behind_branch.go
+++ b/ripsrc/branches2/behind_branch.go
@@ -2,34 +2,14 @@ package branches2
 
 import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
 
-func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefault reachableFromHead, branchHead string) map[string]bool {
-	res := map[string]bool{}
-	done := map[string]bool{}
-	var rec func(string)
-	rec = func(hash string) {
-		if done[hash] {
-			return
-		}
-		done[hash] = true
-		res[hash] = true
-		if reachableFromDefault[hash] {
-			return
-		}
-		for _, p := range gr.Parents[hash] {
-			rec(p)
-		}
-	}
-	rec(branchHead)
-	return res
-}
-
 func behindBranch(
 	gr *parentsgraph.Graph,
 	reachableFromDefault reachableFromHead,
 	branchHead string,
 	defaultHead string) (res int) {
 
-	rfb := reachableFromBranchStopOnDefault(gr, reachableFromDefault, branchHead)
+	// need all commits of the branch, there could be several paths into the history of default branch
+	rfb := newReachableFromHead(gr, branchHead)
 
 	done := map[string]bool{}
 	var rec func(string)
-- 
2.43.0


From 1506ef7cac93f5de6d56cf8f7940f9a5548bff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 09/22] fix: first commit of a branch with several roots or
 paths

---
 ripsrc/branches2/process.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 3897fcf..0167b7a 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"errors"
 	"runtime"
 	"strings"
 	"sync"
@@ -107,7 +108,12 @@ func (s *Process) getFirstCommit() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return strings.TrimSpace(string(buf)), nil
+	// there could be several roots, use the oldest one
+	roots := strings.Fields(string(buf))
+	if len(roots) == 0 {
+		return "", errors.New("could not get the first commit")
+	}
+	return roots[len(roots)-1], nil
 }
 
 func (s *Process) Run(ctx context.Context, res chan Branch) error {
@@ -259,11 +265,28 @@ func (s *Process) processBranch(ctx context.Context, nameAndHash nameAndHash, re
 		}
 	}
 	res.AheadDefaultCount = len(res.Commits)
-	res.FirstCommit = res.Commits[0]
+	res.FirstCommit = firstCommit(gr, res.Commits)
 	resChan <- res
 	return nil
 }
 
+// firstCommit returns the first of the branch commits that does not have other branch commits as parents
+func firstCommit(gr *parentsgraph.Graph, commits []string) string {
+	set := toSet(commits)
+	for _, c := range commits {
+		first := true
+		for _, p := range gr.Parents[c] {
+			if set[p] {
+				first = false
+			}
+		}
+		if first {
+			return c
+		}
+	}
+	return commits[0]
+}
+
 func branchID(name string, branchedFrom []string) string {
 	parts := []string{name}
 	if len(branchedFrom) > 0 {
-- 
2.43.0


From 17c1d7d068678dd8a21d0350c958626f573679c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 10/22] fix: failed git command is returned as an error to the
 reader of its output

Instead of crashing the process from a goroutine the caller has no control of.
---
 ripsrc/gitexec/gitexec.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index fe2d809..98f94e0 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -126,13 +126,8 @@ func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []st
 	r, wr := io.Pipe()
 	go func() {
 		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)
-		if err != nil {
-			panic(err)
-		}
-		err = wr.Close()
-		if err != nil {
-			panic(err)
-		}
+		// reader gets the error if command fails, io.EOF otherwise
+		wr.CloseWithError(err)
 	}()
 	return r, nil
 }
-- 
2.43.0


From 0950570bf1690eae098f6a7db87fcaeb92ce6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 11/22] fix: incomplete output of git log is reported as an
 error

Parser returns an error instead of a panic for a line that is not complete.
---
 ripsrc/history3/process/parser/parser.go | 39 +++++++++++++++---------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/ripsrc/history3/process/parser/parser.go b/ripsrc/history3/process/parser/parser.go
index aabb637..29e8889 100644
--- a/ripsrc/history3/process/parser/parser.go
+++ b/ripsrc/history3/process/parser/parser.go
@@ -73,13 +73,22 @@ func (s *Parser) Run(res chan Commit) error {
 
 	scanner := bufio.NewScanner(s.r)
 	scanner.Buffer(nil, maxLine)
+	var lineErr error
 	for scanner.Scan() {
 		line := scanner.Bytes()
-		s.line(line)
+		err := s.line(line)
+		if err != nil {
+			lineErr = err
+			break
+		}
 	}
+	// if reading failed then the last line is likely incomplete, the original error is more useful
 	if err := scanner.Err(); err != nil {
 		return err
 	}
+	if lineErr != nil {
+		return lineErr
+	}
 
 	// handle empty log output
 	if s.state != stNotStarted {
@@ -88,35 +97,35 @@ func (s *Parser) Run(res chan Commit) error {
 	return nil
 }
 
-func (s *Parser) line(b []byte) {
+func (s *Parser) line(b []byte) error {
 	switch s.state {
 	case stNotStarted:
-		s.parseCommitLine(b)
+		return s.parseCommitLine(b)
 	case stParentsNext:
 		if startsWith(b, mergePrefix) {
 		} else {
 			s.state = stSkipAuthor
-			s.line(b)
+			return s.line(b)
 		}
 	case stSkipAuthor:
 		s.state = stSkippingMessageDiffOrCommitNext
 	case stSkippingMessageDiffOrCommitNext:
 		if len(b) == 0 {
 			// commit message
-			return
+			return nil
 		}
 		if b[0] == ' ' {
 			// commit message
-			return
+			return nil
 		}
 		if s.isDiffStart(b) {
 			s.startDiff(b)
 		} else if startsWith(b, "commit ") {
 			s.endCommit()
 			s.state = stCommitNext
-			s.line(b)
+			return s.line(b)
 		} else {
-			panic(fmt.Errorf("stSkippingMessageDiffOrCommitNext unexpected line, got %s %s", hex.EncodeToString(b), b))
+			return fmt.Errorf("stSkippingMessageDiffOrCommitNext unexpected line, got %s %s", hex.EncodeToString(b), b)
 		}
 	case stInDiff:
 		if len(b) == 0 {
@@ -129,10 +138,11 @@ func (s *Parser) line(b []byte) {
 			s.diff = append(s.diff, '\n')
 		}
 	case stCommitNext:
-		s.parseCommitLine(b)
+		return s.parseCommitLine(b)
 	default:
 		panic(fmt.Errorf("unknown state %v", s.state))
 	}
+	return nil
 }
 
 func (s *Parser) startDiff(b []byte) {
@@ -160,10 +170,10 @@ func (s *Parser) isDiffStart(b []byte) bool {
 	return len(b) > 4 && string(b[0:4]) == "diff"
 }
 
-func (s *Parser) parseCommitLine(b []byte) {
+func (s *Parser) parseCommitLine(b []byte) error {
 	prefix := "commit "
 	if !startsWith(b, prefix) {
-		panic(fmt.Errorf("no '%v' prefix, line %s", prefix, b))
+		return fmt.Errorf("no '%v' prefix, line %s", prefix, b)
 	}
 	data := string(b[len(prefix):])
 	c := Commit{}
@@ -171,15 +181,16 @@ func (s *Parser) parseCommitLine(b []byte) {
 		c.Hash = data
 	} else {
 		parts := strings.SplitN(data, " ", 2)
-		if len(parts) != 2 {
-			panic(fmt.Errorf("invalid format for commit line %s got len parts %v", b, len(parts)))
+		fromPrefix := "(from "
+		if !strings.HasPrefix(parts[1], fromPrefix) || !strings.HasSuffix(parts[1], ")") {
+			return fmt.Errorf("invalid format for commit line %s", b)
 		}
 		c.Hash = parts[0]
-		fromPrefix := "(from "
 		c.MergeDiffFrom = parts[1][len(fromPrefix) : len(parts[1])-1]
 	}
 	s.commit = c
 	s.state = stParentsNext
+	return nil
 }
 
 const mergePrefix = "Merge: "
-- 
2.43.0


From a557e8717f4e907bcce76fd61d4ec2c33777e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 12/22] fix: failure of git log when processing history is
 returned as an error

Do not process merges that are not complete and do not save a checkpoint in this case.
---
 ripsrc/history3/process/process.go | 34 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 52cf2f3..8790578 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -159,15 +159,11 @@ func (s *Process) Run(resChan chan Result) error {
 	p := parser.New(r)
 
 	done := make(chan bool)
+	var parseErr error
 
 	go func() {
-		defer func() {
-			done <- true
-		}()
-		err := p.Run(commits)
-		if err != nil {
-			panic(err)
-		}
+		parseErr = p.Run(commits)
+		done <- true
 	}()
 
 	drainAndExit := func() {
@@ -194,27 +190,33 @@ func (s *Process) Run(resChan chan Result) error {
 		}
 	}
 
+	<-done
+	if parseErr != nil {
+		// history is not complete
+		return fmt.Errorf("could not get history: %v", parseErr)
+	}
+
 	if len(s.mergeParts) > 0 {
-		s.processGotMergeParts(resChan)
+		err := s.processGotMergeParts(resChan)
+		if err != nil {
+			return err
+		}
 	}
 
 	if i == 0 {
 		// there were no items in log, happens when last processed commit was in a branch that is no longer recent and is skipped in incremental
 		// no need to write checkpoints
-		<-done
 		return nil
 	}
 
 	writer := repo.NewCheckpointWriter(s.opts.Logger)
 	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
 	if err != nil {
-		<-done
 		return err
 	}
 
 	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)
 	//fmt.Println("repo len", len(s.repo))
-	<-done
 	return nil
 }
 
@@ -244,7 +246,10 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 			return nil
 		} else {
 			// finished
-			s.processGotMergeParts(resChan)
+			err := s.processGotMergeParts(resChan)
+			if err != nil {
+				return err
+			}
 			// new commit
 			// continue below
 		}
@@ -266,14 +271,15 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 	return nil
 }
 
-func (s *Process) processGotMergeParts(resChan chan Result) {
+func (s *Process) processGotMergeParts(resChan chan Result) error {
 	res, err := s.processMergeCommit(s.mergePartsCommit, s.mergeParts)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)
 	s.mergeParts = nil
 	resChan <- res
+	return nil
 }
 
 type Timing struct {
-- 
2.43.0


From 6fe7a7489f53c0c2a8aef8c3c17691988b6ca6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 13/22] fix: failure of git blame is returned as an error

---
 ripsrc/gitblame2/gitblame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 34d8da9..d02b7a4 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -41,7 +41,7 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	cmd.Stderr = os.Stderr
 	b, err := cmd.Output()
 	if err != nil {
-		panic(err)
+		return res, err
 	}
 	res0 := parseOutput(string(b))
 	for _, l0 := range res0 {
-- 
2.43.0


From 683f82f05eee0d5c521f573e91c9df677a489be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 14/22] fix: incomplete line in output of git log for parents
 is an error

---
 ripsrc/parentsgraph/parentsp/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ripsrc/parentsgraph/parentsp/parser.go b/ripsrc/parentsgraph/parentsp/parser.go
index 98347a3..eaf0ed1 100644
--- a/ripsrc/parentsgraph/parentsp/parser.go
+++ b/ripsrc/parentsgraph/parentsp/parser.go
@@ -3,6 +3,7 @@ package parentsp
 import (
 	"bufio"
 	"bytes"
+	"fmt"
 	"io"
 	"strings"
 )
@@ -27,10 +28,15 @@ func (s *Parser) Run() (Parents, error) {
 
 	scanner := bufio.NewScanner(s.r)
 	scanner.Buffer(nil, maxLine)
+	var lineErr error
 	for scanner.Scan() {
 		line := scanner.Bytes()
 		parts := bytes.Split(line, []byte("@"))
 
+		if len(parts) != 2 {
+			lineErr = fmt.Errorf("invalid line in git log output: %s", line)
+			break
+		}
 		commit := string(parts[0])
 		var parents []string
 		if len(parts[1]) != 0 {
@@ -41,5 +47,8 @@ func (s *Parser) Run() (Parents, error) {
 	if err := scanner.Err(); err != nil {
 		return res, err
 	}
+	if lineErr != nil {
+		return res, lineErr
+	}
 	return res, nil
 }
-- 
2.43.0


From 80af3649b69f7b4934b20fd960adb09c0ad40711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 15/22] fix: exit with non-zero status when the only error is
 reported

---
 ripsrc/cmd/cmdutils/errors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/cmd/cmdutils/errors.go b/ripsrc/cmd/cmdutils/errors.go
index cebec84..03116e4 100644
--- a/ripsrc/cmd/cmdutils/errors.go
+++ b/ripsrc/cmd/cmdutils/errors.go
@@ -9,6 +9,7 @@ import (
 
 func ExitWithErr(err error) {
 	fmt.Fprintln(color.Output, color.RedString("failed with error: %v\n", err.Error()))
+	os.Exit(1)
 }
 
 func ExitWithErrs(errs []error) {
-- 
2.43.0


From fc4173838c0fc9e0267f048b25d04075be3927d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 16/22] fix: mismatch of history and commit metadata is
 returned as an error

Instead of crashing the process from a goroutine.
---
 ripsrc/code.go      | 15 +++++++++++++--
 ripsrc/code_info.go |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/ripsrc/code.go b/ripsrc/code.go
index 606e110..f4aaa1e 100644
--- a/ripsrc/code.go
+++ b/ripsrc/code.go
@@ -142,21 +142,28 @@ func (s *Ripsrc) CodeByCommit(ctx context.Context, res chan CommitCode) error {
 
 	gitRes := make(chan process.Result)
 	done := make(chan bool)
+	var codeErr error
 	go func() {
 		for r1 := range gitRes {
+			if codeErr != nil {
+				// only need to drain the channel
+				continue
+			}
 			sha := r1.Commit
 
 			rc := CommitCode{}
 			rc.Blames = make(chan BlameResult)
 			commit, ok := s.commitMeta[sha]
 			if !ok {
-				panic(fmt.Errorf("commit not found in commit meta: %v", r1.Commit))
+				codeErr = fmt.Errorf("commit not found in commit meta: %v", r1.Commit)
+				continue
 			}
 			rc.Commit = commit
 
 			rs, err := s.codeInfoFiles(r1)
 			if err != nil {
-				panic(err)
+				codeErr = err
+				continue
 			}
 			res <- rc
 			for _, r := range rs {
@@ -186,6 +193,10 @@ func (s *Ripsrc) CodeByCommit(ctx context.Context, res chan CommitCode) error {
 		return err
 	}
 
+	if codeErr != nil {
+		return codeErr
+	}
+
 	s.GitProcessTimings = gitProcessor.Timing()
 
 	return nil
diff --git a/ripsrc/code_info.go b/ripsrc/code_info.go
index 064e4bb..c9027c9 100644
--- a/ripsrc/code_info.go
+++ b/ripsrc/code_info.go
@@ -33,7 +33,7 @@ func (s *Ripsrc) codeInfoFiles(blame process.Result) (res []BlameResult, _ error
 		//	panic(fmt.Errorf("File was in blame, but not stats output commit:%v path:%v", commit.SHA, p))
 		//}
 		if _, ok := blame.Files[p]; !ok {
-			panic(fmt.Errorf("File was in stats output, but not in blame commit:%v path:%v", commit.SHA, p))
+			return nil, fmt.Errorf("File was in stats output, but not in blame commit:%v path:%v", commit.SHA, p)
 		}
 	}
 
-- 
2.43.0


From 64eea29fdf706b63e4887a0707cccae9477436c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 17/22] fix: last line of the list of exclusions was dropped

---
 genignore.go                 | 11 ++++++-----
 ripsrc/fileinfo/gitignore.go |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/genignore.go b/genignore.go
index 86d8937..c361da9 100644
--- a/genignore.go
+++ b/genignore.go
@@ -49,13 +49,14 @@ func parseFile(filename string) ([]string, error) {
 	matches := []string{}
 	for {
 		line, err := b.ReadString('\n')
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
-		line = strings.TrimSpace(line[0 : len(line)-1])
+		// last line may have no line feed
+		if err == io.EOF && line == "" {
+			break
+		}
+		line = strings.TrimSpace(line)
 		if line == "" || line == "\n" || line[0] == '#' || line[0] == '!' || line[0] == '\t' {
 			continue
 		}
diff --git a/ripsrc/fileinfo/gitignore.go b/ripsrc/fileinfo/gitignore.go
index 8121c0b..814cdb2 100644
--- a/ripsrc/fileinfo/gitignore.go
+++ b/ripsrc/fileinfo/gitignore.go
@@ -4,4 +4,4 @@ package fileinfo
 
 import "regexp"
 
-var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$)`)
+var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$|\.parquet$)`)
-- 
2.43.0


From 0cf4816899f5bdfed663c696197755580e3bb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 18/22] fix: license does not depend on order of iteration when
 several match equally

---
 ripsrc/fileinfo/license_enabled.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ripsrc/fileinfo/license_enabled.go b/ripsrc/fileinfo/license_enabled.go
index a985559..878b542 100644
--- a/ripsrc/fileinfo/license_enabled.go
+++ b/ripsrc/fileinfo/license_enabled.go
@@ -56,7 +56,11 @@ func detect(filename string, buf []byte) (*License, error) {
 		}
 		if len(matches) > 0 {
 			sort.Slice(matches, func(i, j int) bool {
-				return matches[i].Confidence > matches[j].Confidence
+				if matches[i].Confidence != matches[j].Confidence {
+					return matches[i].Confidence > matches[j].Confidence
+				}
+				// the same license every time if several match equally well
+				return matches[i].Name < matches[j].Name
 			})
 			if matches[0].Confidence >= minConfidenceLevel {
 				return &matches[0], nil
-- 
2.43.0


From b3e80f38814e0fce3c724d893add96781c91943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 19/22] fix: failure of git rev-parse is reported even when it
 printed a commit

---
 ripsrc/gitexec/gitexec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index 98f94e0..6a06486 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -114,7 +114,9 @@ func headCommit(ctx context.Context, gitCommand string, repoDir string) string {
 	c := exec.Command(gitCommand, "rev-parse", "HEAD")
 	c.Dir = repoDir
 	c.Stdout = out
-	c.Run()
+	if err := c.Run(); err != nil {
+		return ""
+	}
 	res := strings.TrimSpace(out.String())
 	if len(res) != 40 {
 		return ""
-- 
2.43.0


From 13fd147fa07b492ca217eff126ab01ccbab924a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 20/22] fix: commands report a repo whose HEAD cannot be read
 as failed instead of empty

---
 ripsrc/cmd/cmdutils/repo_run.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ripsrc/cmd/cmdutils/repo_run.go b/ripsrc/cmd/cmdutils/repo_run.go
index b807d31..c862b0c 100644
--- a/ripsrc/cmd/cmdutils/repo_run.go
+++ b/ripsrc/cmd/cmdutils/repo_run.go
@@ -18,12 +18,17 @@ var ErrRevParseFailed = errors.New("git rev-parse HEAD failed")
 func RunOnRepo(ctx context.Context, wr io.Writer, repoDir string, run func() error) error {
 	start := time.Now()
 	fmt.Fprintf(color.Output, "starting processing repo:%v\n", color.GreenString(repoDir))
-	if !hasHeadCommit(ctx, repoDir) {
+	ok, err := hasHeadCommit(ctx, repoDir)
+	if err != nil {
+		fmt.Fprintf(color.Output, "could not check repo: %v err: %v\n", color.RedString(repoDir), color.RedString(err.Error()))
+		return err
+	}
+	if !ok {
 		fmt.Fprintf(wr, "git rev-parse HEAD failed, happens for empty repos, repo: %v \n", repoDir)
 		return ErrRevParseFailed
 	}
 
-	err := run()
+	err = run()
 	if err != nil {
 		fmt.Fprintf(color.Output, "completed repo processing in %v repo: %v err: %v\n", time.Since(start), color.RedString(repoDir), color.RedString(err.Error()))
 
@@ -35,15 +40,23 @@ func RunOnRepo(ctx context.Context, wr io.Writer, repoDir string, run func() err
 	return nil
 }
 
-func hasHeadCommit(ctx context.Context, repoDir string) bool {
+// hasHeadCommit returns false for an empty repo, and an error if git failed for any other reason.
+func hasHeadCommit(ctx context.Context, repoDir string) (bool, error) {
 	out := bytes.NewBuffer(nil)
 	c := exec.Command("git", "rev-parse", "HEAD")
 	c.Dir = repoDir
 	c.Stdout = out
-	c.Run()
+	err := c.Run()
 	res := strings.TrimSpace(out.String())
+	if res == "HEAD" {
+		// git prints the name back if there is no commit
+		return false, nil
+	}
+	if err != nil {
+		return false, fmt.Errorf("git rev-parse HEAD failed: %v", err)
+	}
 	if len(res) != 40 {
-		return false
+		return false, fmt.Errorf("unexpected output from git rev-parse HEAD: %q", res)
 	}
-	return true
+	return true, nil
 }
-- 
2.43.0


From 39f69259288af6dd51ccd1a98e9f4542ceff1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:47 +0000
Subject: [PATCH 21/22] fix: return an error for a commit that is not in the
 commit graph

A commit added after the graph was read has no known parents. It was
processed as a root commit, which panics on its patches.
---
 ripsrc/history3/process/process.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 8790578..51e22e2 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -182,7 +182,13 @@ func (s *Process) Run(resChan chan Result) error {
 			}
 		}
 		i++
-		commit.Parents = s.graph.Parents[commit.Hash]
+		parents, ok := s.graph.Parents[commit.Hash]
+		if !ok {
+			// parents are not known, happens when the commit was added after reading the graph
+			drainAndExit()
+			return fmt.Errorf("commit is not in the commit graph: %v", commit.Hash)
+		}
+		commit.Parents = parents
 		err := s.processCommit(resChan, commit)
 		if err != nil {
 			drainAndExit()
-- 
2.43.0


From f1766339bd58beeb00589975221327f4a4a78e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:08 +0000
Subject: [PATCH 22/22] fix: return an error for a branch head that is not in
 the commit graph

A branch that moved after the graph was read made branch listing panic in
one of its goroutines, which ends the calling process.
---
 ripsrc/branches2/process.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 0167b7a..be40a7f 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"runtime"
 	"strings"
 	"sync"
@@ -124,6 +125,9 @@ func (s *Process) Run(ctx context.Context, res chan Branch) error {
 		return err
 	}
 	s.defaultBranch = nameAndHash{Name: defaultBranch.Name, Commit: defaultBranch.Commit}
+	if err := s.checkInGraph(s.defaultBranch); err != nil {
+		return err
+	}
 
 	if !s.opts.PullRequestsOnly && s.opts.IncludeDefaultBranch {
 		firstCommit, err := s.getFirstCommit()
@@ -248,6 +252,8 @@ func (s *Process) processBranch(ctx context.Context, nameAndHash nameAndHash, re
 		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok {
 			return nil
 		}
+	} else if err := s.checkInGraph(nameAndHash); err != nil {
+		return err
 	}
 	res.HeadSHA = nameAndHash.Commit
 	res.Name = name
@@ -270,6 +276,14 @@ func (s *Process) processBranch(ctx context.Context, nameAndHash nameAndHash, re
 	return nil
 }
 
+// checkInGraph returns an error if the branch head is not in the commit graph, happens when the branch was updated after reading the graph
+func (s *Process) checkInGraph(branch nameAndHash) error {
+	if _, ok := s.opts.CommitGraph.Parents[branch.Commit]; !ok {
+		return fmt.Errorf("head of branch %v is not in the commit graph: %v", branch.Name, branch.Commit)
+	}
+	return nil
+}
+
 // firstCommit returns the first of the branch commits that does not have other branch commits as parents
 func firstCommit(gr *parentsgraph.Graph, commits []string) string {
 	set := toSet(commits)
-- 
2.43.0


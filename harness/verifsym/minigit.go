//sym:into ripsrc/verifsym

package verifsym

import (
	"sort"
	"strconv"
	"strings"
)

// A model of the git commands ripsrc runs, over a small history. Lines have an
// identity: a patch keeps the lines whose identity both versions have.

type GLine struct {
	ID   int
	Text string
}

type GFile struct {
	Path   string
	ID     int // files with the same identity can be renames of each other
	Lines  []GLine
	Binary bool
	Blob   int // contents of a binary file
	NoNL   bool
	Mode   string
	// line counts that git gives for the change to this version, in place of
	// the ones of its lines
	Counted string
	Counts  [2]int
}

type GCommit struct {
	Hash    string
	Parents []int
	Files   []GFile
	Date    int
	Subject string
	Author  string
	AEmail  string
	CName   string
	CEmail  string
	ADate   string
}

type GRef struct {
	Name   string // full
	Commit int
	Sym    bool // symbolic, such as refs/remotes/origin/HEAD
}

type GRepo struct {
	Commits   []GCommit
	Head      int
	HeadRef   string // refs/heads/…; empty when detached
	Refs      []GRef
	QuoteHigh bool
}

func NewGRepo() *GRepo {
	return &GRepo{HeadRef: "refs/heads/master", QuoteHigh: true}
}

// Hash40 makes a full hash. All of them begin alike.
func Hash40(s string) string {
	s = "0123456789abcdef01234567" + s
	return s + strings.Repeat("0", 40-len(s))
}

// File is the file of a commit, or nil.
func (c *GCommit) File(path string) *GFile {
	for i := range c.Files {
		if c.Files[i].Path == path {
			return &c.Files[i]
		}
	}
	return nil
}

// With is the tree with one file put in, replacing one with the same path.
func WithFile(fs []GFile, f GFile) []GFile {
	var r []GFile
	for _, x := range fs {
		if x.Path != f.Path {
			r = append(r, x)
		}
	}
	return append(r, f)
}

// Without is the tree without a path.
func WithoutFile(fs []GFile, path string) []GFile {
	var r []GFile
	for _, x := range fs {
		if x.Path != path {
			r = append(r, x)
		}
	}
	return r
}

func (f *GFile) mode() string {
	if f.Mode == "" {
		return "100644"
	}
	return f.Mode
}

// SameContent tells whether two files have the same blob.
func SameContent(a, b *GFile) bool {
	if a.Binary != b.Binary || len(a.Lines) != len(b.Lines) || a.Blob != b.Blob || a.NoNL != b.NoNL {
		return false
	}
	for i := range a.Lines {
		if a.Lines[i].ID != b.Lines[i].ID {
			return false
		}
	}
	return true
}

// keyed is the lines with an identity that includes their terminator.
func (f *GFile) keyed() []GLine {
	r := append([]GLine{}, f.Lines...)
	for i := range r {
		r[i].ID *= 2
		if f.NoNL && i == len(r)-1 {
			r[i].ID++
		}
	}
	return r
}

type GChange struct {
	Old, New *GFile
}

func (c GChange) path() string {
	if c.New != nil {
		return c.New.Path
	}
	return c.Old.Path
}

// Kept is the number of leading lines of a longest common subsequence.
func lcs(a, b []GLine) (keepA, keepB []bool) {
	n, m := len(a), len(b)
	t := make([][]int, n+1)
	for i := range t {
		t[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if a[i].ID == b[j].ID {
				t[i][j] = t[i+1][j+1] + 1
			} else if t[i+1][j] >= t[i][j+1] {
				t[i][j] = t[i+1][j]
			} else {
				t[i][j] = t[i][j+1]
			}
		}
	}
	keepA, keepB = make([]bool, n), make([]bool, m)
	i, j := 0, 0
	for i < n && j < m {
		if a[i].ID == b[j].ID {
			keepA[i], keepB[j] = true, true
			i++
			j++
		} else if t[i+1][j] >= t[i][j+1] {
			i++
		} else {
			j++
		}
	}
	return
}

// similar tells whether git would pair two files of one identity as a rename.
func similar(a, b *GFile) bool {
	if SameContent(a, b) {
		return true
	}
	if a.Binary || b.Binary {
		return a.Binary && b.Binary
	}
	ka, _ := lcs(a.keyed(), b.keyed())
	n := 0
	for _, k := range ka {
		if k {
			n++
		}
	}
	max := len(a.Lines)
	if len(b.Lines) > max {
		max = len(b.Lines)
	}
	return 2*n > max
}

// diffOpts are the options of git that change what it says about changes.
type diffOpts struct {
	renames  bool
	fewFiles bool   // too many files for renames with changes to be found
	binary   bool   // attributes of the user make all files binary
	space    string // which blanks do not count
	filter   string // only changes of these kinds
	ctx      int
}

// TreeDiff is what git diff reports between two trees, sorted as git does.
func TreeDiff(a, b []GFile, renames bool) []GChange {
	return diffOpts{renames: renames}.tree(a, b)
}

func (do diffOpts) tree(a, b []GFile) []GChange {
	r := do.allChanges(a, b)
	if do.filter == "" {
		return r
	}
	var res []GChange
	for _, c := range r {
		st := c.status()[:1]
		if strings.ToUpper(do.filter) == do.filter {
			if strings.Contains(do.filter, st) {
				res = append(res, c)
			}
		} else if !strings.Contains(do.filter, strings.ToLower(st)) {
			res = append(res, c)
		}
	}
	return res
}

func (do diffOpts) allChanges(a, b []GFile) []GChange {
	var r []GChange
	var dels, adds []*GFile
	find := func(fs []GFile, p string) *GFile {
		for i := range fs {
			if fs[i].Path == p {
				return &fs[i]
			}
		}
		return nil
	}
	for i := range a {
		o := &a[i]
		n := find(b, o.Path)
		if n == nil {
			dels = append(dels, o)
			continue
		}
		if (o.mode() == "120000") != (n.mode() == "120000") {
			// a change of type is shown as a deletion and a creation
			r = append(r, GChange{o, nil}, GChange{nil, n})
			continue
		}
		if !SameContent(o, n) || o.mode() != n.mode() {
			r = append(r, GChange{o, n})
		}
	}
	for i := range b {
		if find(a, b[i].Path) == nil {
			adds = append(adds, &b[i])
		}
	}
	for _, o := range dels {
		paired := false
		if do.renames {
			for i, n := range adds {
				if n != nil && n.ID == o.ID && similar(o, n) && (!do.fewFiles || SameContent(o, n)) {
					r = append(r, GChange{o, n})
					adds[i] = nil
					paired = true
					break
				}
			}
		}
		if !paired {
			r = append(r, GChange{o, nil})
		}
	}
	for _, n := range adds {
		if n != nil {
			r = append(r, GChange{nil, n})
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].path() < r[j].path() })
	return r
}

type edit struct {
	op   byte
	text string
}

func rangeText(off, cnt int) string {
	if cnt == 0 {
		return strconv.Itoa(off) + ",0"
	}
	if cnt == 1 {
		return strconv.Itoa(off + 1)
	}
	return strconv.Itoa(off+1) + "," + strconv.Itoa(cnt)
}

// script makes the edit script between two files.
func script(a, b []GLine) []edit {
	ka, kb := lcs(a, b)
	var s []edit
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i < len(a) && !ka[i]:
			s = append(s, edit{'-', a[i].Text})
			i++
		case j < len(b) && !kb[j]:
			s = append(s, edit{'+', b[j].Text})
			j++
		default:
			s = append(s, edit{' ', a[i].Text})
			i++
			j++
		}
	}
	return s
}

func (c GChange) Counts() (adds, dels int) {
	if c.New != nil && c.New.Counted != "" {
		return c.New.Counts[0], c.New.Counts[1]
	}
	var a, b []GLine
	if c.Old != nil {
		a = c.Old.keyed()
	}
	if c.New != nil {
		b = c.New.keyed()
	}
	ss := script(a, b)
	for _, e := range ss {
		switch e.op {
		case '+':
			adds++
		case '-':
			dels++
		}
	}
	return
}

// blank tells which bytes are spaces to git.
func blank(c byte) bool { return Or(c == ' ', And(c >= 9, c <= 13)) }

// sameBut compares two lines the way git does when blanks do not count.
func sameBut(space, a, b string) bool {
	switch space {
	case "all": // no blanks at all
		i, j := 0, 0
		for {
			for i < len(a) && blank(a[i]) {
				i++
			}
			for j < len(b) && blank(b[j]) {
				j++
			}
			if i == len(a) || j == len(b) {
				return i == len(a) && j == len(b)
			}
			if a[i] != b[j] {
				return false
			}
			i++
			j++
		}
	case "eol", "change":
		for len(a) > 0 && blank(a[len(a)-1]) {
			a = a[:len(a)-1]
		}
		for len(b) > 0 && blank(b[len(b)-1]) {
			b = b[:len(b)-1]
		}
		if space == "eol" {
			return a == b
		}
		i, j := 0, 0
		for i < len(a) && j < len(b) {
			if blank(a[i]) && blank(b[j]) {
				for i < len(a) && blank(a[i]) {
					i++
				}
				for j < len(b) && blank(b[j]) {
					j++
				}
				continue
			}
			if a[i] != b[j] {
				return false
			}
			i++
			j++
		}
		return i == len(a) && j == len(b)
	case "cr":
		return strings.TrimSuffix(a, "\r") == strings.TrimSuffix(b, "\r")
	}
	return a == b
}

// ignoring is an edit script in which lines that differ in blanks are kept,
// shown as they are in the new version.
func ignoring(space string, es []edit) (res []edit) {
	for i := 0; i < len(es); {
		if es[i].op == ' ' {
			res = append(res, es[i])
			i++
			continue
		}
		var dels, adds []edit
		for i < len(es) && es[i].op == '-' {
			dels = append(dels, es[i])
			i++
		}
		for i < len(es) && es[i].op == '+' {
			adds = append(adds, es[i])
			i++
		}
		if space == "blank" { // changes of nothing but empty lines
			empty := true
			for _, e := range append(append([]edit{}, dels...), adds...) {
				empty = empty && len(e.text) == 0
			}
			if empty {
				for _, d := range dels {
					res = append(res, edit{' ', d.text})
				}
				continue
			}
			res = append(append(res, dels...), adds...)
			continue
		}
		j := 0
		for _, d := range dels {
			k := j
			for k < len(adds) && !sameBut(space, d.text, adds[k].text) {
				k++
			}
			if k == len(adds) {
				res = append(res, d)
				continue
			}
			res = append(res, adds[j:k]...)
			res = append(res, edit{' ', adds[k].text})
			j = k + 1
		}
		res = append(res, adds[j:]...)
	}
	return
}

// Patch renders one change as git diff does with n lines of context.
func (c GChange) Patch(ctx int, quoteHigh bool) string {
	return c.patch(diffOpts{ctx: ctx}, quoteHigh)
}

// patch is empty for a change that the options make git leave out.
func (c GChange) patch(do diffOpts, quoteHigh bool) string {
	ctx := do.ctx
	h := GitHeader{QuoteHigh: quoteHigh}
	o, n := c.Old, c.New
	var ol, nl []GLine
	oldNoNL, newNoNL := false, false
	if o != nil {
		h.Old, h.OldMode = o.Path, o.mode()
		h.Binary = h.Binary || o.Binary
		ol, oldNoNL = o.keyed(), o.NoNL
	}
	if n != nil {
		h.New, h.NewMode = n.Path, n.mode()
		h.Binary = h.Binary || n.Binary
		nl, newNoNL = n.keyed(), n.NoNL
	}
	if o == nil {
		h.OldMode = h.NewMode
	}
	switch {
	case o == nil:
		h.Content = n.Binary || len(nl) > 0
	case n == nil:
		h.Content = o.Binary || len(ol) > 0
	default:
		h.Content = !SameContent(o, n)
	}
	if do.binary && h.Content {
		h.Binary = true
	}
	s := h.String()
	if !h.Content || h.Binary {
		return s
	}
	es := script(ol, nl)
	if do.space != "" {
		es = ignoring(do.space, es)
		changed := o == nil || n == nil
		for _, e := range es {
			changed = changed || e.op != ' '
		}
		if !changed {
			if o.mode() == n.mode() && o.Path == n.Path {
				return ""
			}
			h.Content = false
			return h.String()
		}
	}
	return s + hunks(es, ctx, oldNoNL, newNoNL)
}

func hunks(script []edit, ctx int, oldNoNL, newNoNL bool) string {
	var out []byte
	n := len(script)
	lastOld, lastNew := -1, -1
	for i, e := range script {
		if e.op != '+' {
			lastOld = i
		}
		if e.op != '-' {
			lastNew = i
		}
	}
	i := 0
	for i < n {
		for i < n && script[i].op == ' ' {
			i++
		}
		if i == n {
			break
		}
		start := i - ctx
		if start < 0 {
			start = 0
		}
		end := i
		for {
			for end < n && script[end].op != ' ' {
				end++
			}
			k := end
			for k < n && script[k].op == ' ' {
				k++
			}
			if k < n && k-end <= 2*ctx {
				end = k
				continue
			}
			break
		}
		stop := end + ctx
		if stop > n {
			stop = n
		}
		oldOff, newOff, oldCnt, newCnt := 0, 0, 0, 0
		for k, e := range script[:stop] {
			if e.op != '+' {
				if k < start {
					oldOff++
				} else {
					oldCnt++
				}
			}
			if e.op != '-' {
				if k < start {
					newOff++
				} else {
					newCnt++
				}
			}
		}
		out = append(out, "@@ -"+rangeText(oldOff, oldCnt)+" +"+rangeText(newOff, newCnt)+" @@\n"...)
		for k := start; k < stop; k++ {
			e := script[k]
			out = append(out, e.op)
			out = append(out, e.text...)
			out = append(out, '\n')
			if oldNoNL && k == lastOld || newNoNL && k == lastNew {
				out = append(out, "\\ No newline at end of file\n"...)
			}
		}
		i = stop
		if end > i {
			i = end
		}
	}
	return string(out)
}

// --- walking the history

// Reach is the set of commits reachable from the given ones.
func (r *GRepo) Reach(from ...int) []bool { return r.walk(false, from...) }

func (r *GRepo) parents(c int, first bool) []int {
	if ps := r.Commits[c].Parents; first && len(ps) > 1 {
		return ps[:1]
	}
	return r.Commits[c].Parents
}

func (r *GRepo) walk(first bool, from ...int) []bool {
	res := make([]bool, len(r.Commits))
	var rec func(int)
	rec = func(c int) {
		if res[c] {
			return
		}
		res[c] = true
		for _, p := range r.parents(c, first) {
			rec(p)
		}
	}
	for _, c := range from {
		rec(c)
	}
	return res
}

// order lists the wanted commits newest first, in git's default order or with
// every child before its parents.
func (r *GRepo) order(want []bool, tips []int, dateOrder, first bool) []int {
	kids := make([]int, len(r.Commits))
	for i := range r.Commits {
		if want[i] {
			for _, p := range r.parents(i, first) {
				kids[p]++
			}
		}
	}
	var queue, res []int
	push := func(c int) {
		// by date, later first; on a tie after those already there
		k := len(queue)
		for k > 0 && r.Commits[queue[k-1]].Date < r.Commits[c].Date {
			k--
		}
		queue = append(queue, 0)
		copy(queue[k+1:], queue[k:])
		queue[k] = c
	}
	seen := make([]bool, len(r.Commits))
	for _, i := range tips {
		if want[i] && !seen[i] && (!dateOrder || kids[i] == 0) {
			seen[i] = true
			push(i)
		}
	}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		res = append(res, c)
		for _, p := range r.parents(c, first) {
			if !want[p] {
				continue
			}
			if dateOrder {
				kids[p]--
				if kids[p] == 0 {
					push(p)
				}
			} else if !seen[p] {
				seen[p] = true
				push(p)
			}
		}
	}
	return res
}

func (r *GRepo) find(rev string) int {
	up := 0
	for strings.HasSuffix(rev, "^") {
		rev = rev[:len(rev)-1]
		up++
	}
	c := -1
	switch {
	case rev == "HEAD":
		c = r.Head
	default:
		for i := range r.Commits {
			if r.Commits[i].Hash == rev {
				c = i
			}
		}
		for _, f := range r.Refs {
			if f.Name == rev || f.Name == "refs/heads/"+rev {
				c = f.Commit
			}
		}
	}
	for ; up > 0 && c >= 0; up-- {
		if len(r.Commits[c].Parents) == 0 {
			return -1
		}
		c = r.Commits[c].Parents[0]
	}
	return c
}

func badRev(rev string) ExecResult {
	return ExecResult{Code: 128, Err: "fatal: ambiguous argument '" + rev + "': unknown revision or path not in the working tree.\n"}
}

// Exec answers a git command.
func (r *GRepo) Exec(dir string, args []string) ExecResult {
	do := diffOpts{renames: true, ctx: 3}
	limit, attributes := 1000, false
	for len(args) >= 2 && args[0] == "-c" {
		kv := args[1]
		switch low := strings.ToLower(kv); {
		case low == "diff.renames=false":
			do.renames = false
		case strings.HasPrefix(low, "diff.renamelimit="):
			limit, _ = strconv.Atoi(kv[17:])
		case strings.HasPrefix(low, "core.attributesfile="):
			attributes = true
		}
		args = args[2:]
	}
	if len(args) == 0 {
		return ExecResult{Code: 1}
	}
	switch args[0] {
	case "log":
		return r.log(args[1:], do, limit, attributes)
	case "rev-parse":
		return r.revParse(args[1:])
	case "symbolic-ref":
		if r.HeadRef == "" {
			return ExecResult{Code: 128, Err: "fatal: ref HEAD is not a symbolic ref\n"}
		}
		for _, a := range args[1:] {
			if a == "--short" {
				return ExecResult{Out: r.shortRef(r.HeadRef, false) + "\n"}
			}
		}
		return ExecResult{Out: r.HeadRef + "\n"}
	case "for-each-ref":
		return r.forEachRef(args[1:])
	case "rev-list":
		return r.revList(args[1:])
	case "blame":
		return r.blame(args[1:])
	}
	Unsupported("git " + strings.Join(args, " "))
	return ExecResult{Code: 1}
}

func (r *GRepo) allTips() []int {
	refs := append([]GRef{}, r.Refs...)
	sort.SliceStable(refs, func(i, j int) bool { return refs[i].Name < refs[j].Name })
	var tips []int
	for _, f := range refs {
		tips = append(tips, f.Commit)
	}
	return append(tips, r.Head)
}

// tipsOf are the commits of the refs with the prefix.
func (r *GRepo) tipsOf(prefix string) (tips []int) {
	refs := append([]GRef{}, r.Refs...)
	sort.SliceStable(refs, func(i, j int) bool { return refs[i].Name < refs[j].Name })
	for _, f := range refs {
		if strings.HasPrefix(f.Name, prefix) {
			tips = append(tips, f.Commit)
		}
	}
	return
}

// limit leaves at most max of the commits that have the numbers of parents
// asked for (-1: any).
func (r *GRepo) limit(order []int, minParents, maxParents, max int) (res []int) {
	for _, c := range order {
		n := len(r.Commits[c].Parents)
		if n < minParents || maxParents >= 0 && n > maxParents {
			continue
		}
		if max >= 0 && len(res) >= max {
			break
		}
		res = append(res, c)
	}
	return
}

// manyFiles is the number of files a commit can rename with the changes in
// them found.
const manyFiles = 5000

func (r *GRepo) log(args []string, do diffOpts, limit int, attributes bool) ExecResult {
	var patch, each, combined, raw, numstat, reverse, dateOrder, first bool
	since := false
	format := "medium"
	maxParents, minParents, max, given := -1, 0, -1, false
	var tips, not []int
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-p" || a == "-u" || a == "--patch":
			patch = true
		case a == "-m":
			each = true
		case a == "-c":
			combined = true
		case a == "--raw":
			raw = true
		case a == "--numstat":
			numstat = true
		case a == "--reverse":
			reverse = true
		case a == "--date-order" || a == "--topo-order" || a == "--author-date-order":
			dateOrder = true
		case a == "--no-merges":
			maxParents = 1
		case a == "--merges":
			minParents = 2
		case strings.HasPrefix(a, "--max-count="):
			max, _ = strconv.Atoi(a[12:])
		case a == "-n" && i+1 < len(args):
			i++
			max, _ = strconv.Atoi(args[i])
		case a == "--branches":
			tips = append(tips, r.tipsOf("refs/heads/")...)
			given = true
		case a == "--tags":
			tips = append(tips, r.tipsOf("refs/tags/")...)
			given = true
		case a == "--remotes":
			tips = append(tips, r.tipsOf("refs/remotes/")...)
			given = true
		case a == "--no-abbrev-commit" || a == "--no-color" || a == "--no-decorate" || a == "--full-index" || a == "--no-ext-diff" || a == "--no-textconv" || a == "--no-show-signature" || a == "--no-notes":
		case a == "--minimal" || a == "--patience" || a == "--histogram" || strings.HasPrefix(a, "--diff-algorithm=") || a == "--indent-heuristic" || a == "--no-indent-heuristic" || strings.HasPrefix(a, "--abbrev=") || a == "--no-mailmap" || a == "--ignore-submodules" || a == "--no-relative":
		case a == "-M" || a == "--find-renames":
			do.renames = true
		case a == "--no-renames":
			do.renames = false
		case strings.HasPrefix(a, "-l"):
			limit, _ = strconv.Atoi(a[2:])
		case a == "-w" || a == "--ignore-all-space":
			do.space = "all"
		case a == "-b" || a == "--ignore-space-change":
			do.space = "change"
		case a == "--ignore-space-at-eol":
			do.space = "eol"
		case a == "--ignore-cr-at-eol":
			do.space = "cr"
		case a == "--ignore-blank-lines":
			do.space = "blank"
		case strings.HasPrefix(a, "--diff-filter="):
			do.filter = a[14:]
		case a == "--first-parent":
			first = true
		case strings.HasPrefix(a, "--since=") || strings.HasPrefix(a, "--after="):
			since = true
		case strings.HasPrefix(a, "-U"):
			do.ctx, _ = strconv.Atoi(a[2:])
		case strings.HasPrefix(a, "--unified="):
			do.ctx, _ = strconv.Atoi(a[10:])
		case strings.HasPrefix(a, "--pretty="):
			format = a[9:]
		case strings.HasPrefix(a, "--format="):
			format = a[9:]
			if !strings.HasPrefix(format, "format:") && !strings.HasPrefix(format, "tformat:") {
				format = "tformat:" + format
			}
		case a == "--all":
			tips = append(tips, r.allTips()...)
		case a == "--":
		case strings.HasPrefix(a, "-"):
			Unsupported("git log " + a)
		case strings.Contains(a, "..."):
			k := strings.Index(a, "...")
			from, to := r.find(a[:k]), r.find(a[k+3:])
			if from < 0 || to < 0 {
				return badRev(a)
			}
			for i, b := range r.Reach(from) {
				if b && r.Reach(to)[i] {
					not = append(not, i)
				}
			}
			tips = append(tips, from, to)
		case strings.Contains(a, ".."):
			k := strings.Index(a, "..")
			from, to := r.find(a[:k]), r.find(a[k+2:])
			if from < 0 || to < 0 {
				return badRev(a)
			}
			not = append(not, from)
			tips = append(tips, to)
		case strings.HasPrefix(a, "^"):
			c := r.find(a[1:])
			if c < 0 {
				return badRev(a)
			}
			not = append(not, c)
		default:
			c := r.find(a)
			if c < 0 {
				return badRev(a)
			}
			tips = append(tips, c)
		}
	}
	if len(r.Commits) == 0 {
		return ExecResult{Code: 128, Err: "fatal: your current branch 'master' does not have any commits yet\n"}
	}
	if len(tips) == 0 && !given {
		tips = []int{r.Head}
	}
	want := r.walk(first, tips...)
	if len(not) > 0 {
		for i, b := range r.Reach(not...) {
			if b {
				want[i] = false
			}
		}
	}
	if since { // commits made before any moment
		for i := Choose("since", len(r.Commits)+1); i > 0; i-- {
			want[i-1] = false
		}
	}
	if (patch || numstat || raw) && do.renames && limit > 0 && limit < manyFiles {
		do.fewFiles = Choose("rename limit exceeded", 2) == 1
	}
	if patch && !attributes {
		do.binary = Choose("attributes of the user", 2) == 1
	}
	order := r.limit(r.order(want, tips, dateOrder, first), minParents, maxParents, max)
	if reverse {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	switch {
	case patch && format == "short":
		return ExecResult{Out: GitLogShort(r.shortEntries(order, each, first, do))}
	case !patch && !numstat && !raw:
		return ExecResult{Out: r.formatLog(order, format, nil)}
	case numstat && !patch:
		return ExecResult{Out: r.formatLog(order, format, func(c int) string { return r.stats(c, raw, combined, each, do) })}
	}
	Unsupported("git log " + strings.Join(args, " "))
	return ExecResult{}
}

func (r *GRepo) shortEntries(order []int, each, first bool, do diffOpts) []LogEntry {
	var es []LogEntry
	for _, i := range order {
		c := &r.Commits[i]
		e := LogEntry{Hash: c.Hash, Merge: len(c.Parents) > 1, Author: c.Author + " <" + c.AEmail + ">"}
		if c.Subject != "" {
			e.Subject = []string{c.Subject}
		}
		if len(c.Parents) <= 1 {
			var old []GFile
			if len(c.Parents) == 1 {
				old = r.Commits[c.Parents[0]].Files
			}
			for _, ch := range do.tree(old, c.Files) {
				if s := ch.patch(do, r.QuoteHigh); s != "" {
					e.Patches = append(e.Patches, s)
				}
			}
			if do.filter == "" || len(e.Patches) > 0 {
				es = append(es, e)
			}
			continue
		}
		shown := false
		if each || first {
			ps := c.Parents
			if first {
				ps = ps[:1]
			}
			for _, p := range ps {
				e := e
				if !first {
					e.From = r.Commits[p].Hash
				}
				e.Patches = nil
				for _, ch := range do.tree(r.Commits[p].Files, c.Files) {
					if s := ch.patch(do, r.QuoteHigh); s != "" {
						e.Patches = append(e.Patches, s)
					}
				}
				if len(e.Patches) > 0 {
					es = append(es, e)
					shown = true
				}
			}
		}
		if !shown && do.filter == "" {
			es = append(es, e)
		}
	}
	return es
}

// expand replaces the placeholders of a format.
func (r *GRepo) expand(format string, i int) string {
	c := &r.Commits[i]
	var b []byte
	for k := 0; k < len(format); k++ {
		if format[k] != '%' {
			b = append(b, format[k])
			continue
		}
		rest := format[k+1:]
		put := func(n int, s string) {
			b = append(b, s...)
			k += n
		}
		switch {
		case strings.HasPrefix(rest, "H"):
			put(1, c.Hash)
		case strings.HasPrefix(rest, "P"):
			var ps []string
			for _, p := range c.Parents {
				ps = append(ps, r.Commits[p].Hash)
			}
			put(1, strings.Join(ps, " "))
		case strings.HasPrefix(rest, "n"):
			put(1, "\n")
		case strings.HasPrefix(rest, "an"):
			put(2, c.Author)
		case strings.HasPrefix(rest, "ae"):
			put(2, c.AEmail)
		case strings.HasPrefix(rest, "cn"):
			put(2, c.CName)
		case strings.HasPrefix(rest, "ce"):
			put(2, c.CEmail)
		case strings.HasPrefix(rest, "aN"):
			put(2, "mapped "+c.Author)
		case strings.HasPrefix(rest, "aE"):
			put(2, "mapped-"+c.AEmail)
		case strings.HasPrefix(rest, "cN"):
			put(2, "mapped "+c.CName)
		case strings.HasPrefix(rest, "cE"):
			put(2, "mapped-"+c.CEmail)
		case strings.HasPrefix(rest, "aI"):
			put(2, c.ADate)
		case strings.HasPrefix(rest, "cI"):
			put(2, commitDate)
		case strings.HasPrefix(rest, "s"):
			put(1, c.Subject)
		default:
			Unsupported("git format %" + rest)
		}
	}
	return string(b)
}

// commitDate is the date of committing, which no commit was authored at.
const commitDate = "2001-01-01T00:00:00+00:00"

func (r *GRepo) formatLog(order []int, format string, body func(int) string) string {
	term := strings.HasPrefix(format, "tformat:")
	if !term && !strings.HasPrefix(format, "format:") {
		Unsupported("git log --pretty=" + format)
	}
	f := format[strings.IndexByte(format, ':')+1:]
	var b []byte
	for k, i := range order {
		if k > 0 && (!term || body != nil) {
			b = append(b, '\n')
		}
		b = append(b, r.expand(f, i)...)
		if term {
			b = append(b, '\n')
		}
		if body != nil {
			if s := body(i); s != "" {
				if s[0] != '\n' {
					b = append(b, '\n')
				}
				b = append(b, s...)
			}
		}
	}
	return string(b)
}

func (r *GRepo) stats(i int, raw, combined, each bool, do diffOpts) string {
	c := &r.Commits[i]
	var b []byte
	if len(c.Parents) > 1 {
		if !combined {
			return ""
		}
		// statistics against the first parent, then the files that differ
		// from every parent
		chs := make([][]GChange, len(c.Parents))
		for k, p := range c.Parents {
			chs[k] = mergeTypeChanges(do.tree(r.Commits[p].Files, c.Files))
		}
		b = append(b, '\n')
		for _, ch := range chs[0] {
			b = append(b, numstat(ch, r.QuoteHigh)...)
		}
		if raw {
			for _, ch := range chs[0] {
				if !r.inAll(ch.path(), chs) {
					continue
				}
				b = append(b, strings.Repeat(":", len(c.Parents))...)
				st := ""
				for _, x := range chs {
					o := x[pathIn(ch.path(), x)]
					m := "000000 "
					if o.Old != nil {
						m = o.Old.mode() + " "
					}
					b = append(b, m...)
					st += o.status()[:1]
				}
				m := "000000"
				if ch.New != nil {
					m = ch.New.mode()
				}
				b = append(b, m...)
				for k := 0; k <= len(c.Parents); k++ {
					b = append(b, " 1111111"...)
				}
				b = append(b, " "+st+"\t"...)
				b = append(b, GitQuoted("", ch.path(), r.QuoteHigh)...)
				b = append(b, '\n')
			}
		}
		return string(b)
	}
	var old []GFile
	if len(c.Parents) == 1 {
		old = r.Commits[c.Parents[0]].Files
	}
	chs := mergeTypeChanges(do.tree(old, c.Files))
	if raw {
		for _, ch := range chs {
			b = append(b, ch.raw(r.QuoteHigh)...)
		}
	}
	for _, ch := range chs {
		b = append(b, numstat(ch, r.QuoteHigh)...)
	}
	return string(b)
}

// in raw output a change of type is one entry
func mergeTypeChanges(chs []GChange) []GChange {
	var res []GChange
	for _, ch := range chs {
		n := len(res)
		if n > 0 && res[n-1].New == nil && ch.Old == nil && res[n-1].Old.Path == ch.New.Path {
			res[n-1].New = ch.New
			continue
		}
		res = append(res, ch)
	}
	return res
}

func pathIn(p string, chs []GChange) int {
	for i, c := range chs {
		if c.path() == p {
			return i
		}
	}
	return -1
}

func (r *GRepo) inAll(p string, chs [][]GChange) bool {
	for _, x := range chs {
		if pathIn(p, x) < 0 {
			return false
		}
	}
	return true
}

func (c GChange) status() string {
	switch {
	case c.Old == nil:
		return "A"
	case c.New == nil:
		return "D"
	case c.Old.Path != c.New.Path:
		if SameContent(c.Old, c.New) {
			return "R100"
		}
		return "R075"
	case (c.Old.mode() == "120000") != (c.New.mode() == "120000"):
		return "T"
	}
	return "M"
}

func (c GChange) raw(quoteHigh bool) string {
	om, nm, oh, nh := "000000", "000000", "0000000", "0000000"
	if c.Old != nil {
		om, oh = c.Old.mode(), "1111111"
	}
	if c.New != nil {
		nm, nh = c.New.mode(), "2222222"
	}
	s := ":" + om + " " + nm + " " + oh + " " + nh + " " + c.status() + "\t"
	if c.Old != nil && c.New != nil && c.Old.Path != c.New.Path {
		return s + GitQuoted("", c.Old.Path, quoteHigh) + "\t" + GitQuoted("", c.New.Path, quoteHigh) + "\n"
	}
	return s + GitQuoted("", c.path(), quoteHigh) + "\n"
}

func numstat(c GChange, quoteHigh bool) string {
	s := ""
	if c.Old != nil && c.Old.Binary || c.New != nil && c.New.Binary {
		if c.Old != nil && c.New != nil && SameContent(c.Old, c.New) {
			s = "0\t0\t"
			// git still marks an unchanged binary file
			s = "-\t-\t"
		} else {
			s = "-\t-\t"
		}
	} else {
		if c.New != nil && c.New.Counted != "" {
			s = c.New.Counted + "\t"
		} else {
			a, d := c.Counts()
			s = strconv.Itoa(a) + "\t" + strconv.Itoa(d) + "\t"
		}
	}
	if c.Old != nil && c.New != nil && c.Old.Path != c.New.Path {
		return s + RenamePrint(c.Old.Path, c.New.Path, quoteHigh) + "\n"
	}
	return s + GitQuoted("", c.path(), quoteHigh) + "\n"
}

// RenamePrint is git's pprint_rename (diff.c).
func RenamePrint(a, b string, quoteHigh bool) string {
	qa, qb := GitQuoted("", a, quoteHigh), GitQuoted("", b, quoteHigh)
	if qa != a || qb != b {
		return qa + " => " + qb
	}
	// common prefix up to a slash
	pfx := 0
	for i := 0; i < len(a) && i < len(b) && a[i] == b[i]; i++ {
		if a[i] == '/' {
			pfx = i + 1
		}
	}
	// common suffix from a slash
	adj := 0
	if pfx > 0 {
		adj = 1
	}
	sfx := 0
	i, j := len(a), len(b)
	for pfx-adj <= i && pfx-adj <= j {
		var ca, cb byte
		if i < len(a) {
			ca = a[i]
		}
		if j < len(b) {
			cb = b[j]
		}
		if ca != cb {
			break
		}
		if ca == '/' {
			sfx = len(a) - i
		}
		i--
		j--
		if i < 0 || j < 0 {
			break
		}
	}
	am, bm := len(a)-pfx-sfx, len(b)-pfx-sfx
	if am < 0 {
		am = 0
	}
	if bm < 0 {
		bm = 0
	}
	if pfx+sfx == 0 {
		return a + " => " + b
	}
	return a[:pfx] + "{" + a[pfx:pfx+am] + " => " + b[pfx:pfx+bm] + "}" + a[len(a)-sfx:]
}

func (r *GRepo) revParse(args []string) ExecResult {
	abbrev, full := false, false
	verify := false
	rev := ""
	for _, a := range args {
		switch {
		case a == "--abbrev-ref":
			abbrev = true
		case a == "--symbolic-full-name":
			full = true
		case a == "--verify" || a == "-q" || a == "--quiet":
			verify = true
		case strings.HasPrefix(a, "-"):
			Unsupported("git rev-parse " + a)
		default:
			rev = a
		}
	}
	if len(r.Commits) == 0 {
		out := rev + "\n"
		if verify {
			out = ""
		}
		return ExecResult{Out: out, Code: 128, Err: "fatal: ambiguous argument 'HEAD': unknown revision or path not in the working tree.\n"}
	}
	if full && rev == "HEAD" && r.HeadRef != "" {
		return ExecResult{Out: r.HeadRef + "\n"}
	}
	if full {
		if rev != "HEAD" {
			Unsupported("git rev-parse --symbolic-full-name " + rev)
		}
		return ExecResult{Out: "HEAD\n"}
	}
	if abbrev {
		if rev != "HEAD" {
			Unsupported("git rev-parse --abbrev-ref " + rev)
		}
		if r.HeadRef == "" {
			return ExecResult{Out: "HEAD\n"}
		}
		return ExecResult{Out: r.shortRef(r.HeadRef, true) + "\n"}
	}
	c := r.find(rev)
	if c < 0 {
		return badRev(rev)
	}
	return ExecResult{Out: r.Commits[c].Hash + "\n"}
}

func (r *GRepo) revList(args []string) ExecResult {
	minParents, maxParents, max := 0, -1, -1
	var tips, not []int
	reverse, dateOrder, count, given, parents, first := false, false, false, false, false, false
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case strings.HasPrefix(a, "--max-parents="):
			maxParents, _ = strconv.Atoi(a[14:])
		case strings.HasPrefix(a, "--min-parents="):
			minParents, _ = strconv.Atoi(a[14:])
		case a == "--no-merges":
			maxParents = 1
		case a == "--merges":
			minParents = 2
		case strings.HasPrefix(a, "--max-count="):
			max, _ = strconv.Atoi(a[12:])
		case a == "-n" && i+1 < len(args):
			i++
			max, _ = strconv.Atoi(args[i])
		case a == "-1":
			max = 1
		case a == "--reverse":
			reverse = true
		case a == "--date-order" || a == "--topo-order" || a == "--author-date-order":
			dateOrder = true
		case a == "--count":
			count = true
		case a == "--first-parent":
			first = true
		case a == "--parents":
			parents = true
		case a == "--all":
			tips = append(tips, r.allTips()...)
			given = true
		case a == "--":
		case strings.HasPrefix(a, "-"):
			Unsupported("git rev-list " + a)
		case strings.Contains(a, "..."):
			k := strings.Index(a, "...")
			from, to := r.find(a[:k]), r.find(a[k+3:])
			if from < 0 || to < 0 {
				return badRev(a)
			}
			for i, b := range r.Reach(from) {
				if b && r.Reach(to)[i] {
					not = append(not, i)
				}
			}
			tips = append(tips, from, to)
		case strings.Contains(a, ".."):
			k := strings.Index(a, "..")
			from, to := r.find(a[:k]), r.find(a[k+2:])
			if from < 0 || to < 0 {
				return badRev(a)
			}
			not = append(not, from)
			tips = append(tips, to)
		case strings.HasPrefix(a, "^"):
			c := r.find(a[1:])
			if c < 0 {
				return badRev(a)
			}
			not = append(not, c)
		default:
			c := r.find(a)
			if c < 0 {
				return badRev(a)
			}
			tips = append(tips, c)
		}
	}
	if len(tips) == 0 && !given {
		return ExecResult{Code: 129, Err: "usage: git rev-list [<options>] <commit>... [--] [<path>...]\n"}
	}
	want := r.walk(first, tips...)
	for i, b := range r.Reach(not...) {
		if b {
			want[i] = false
		}
	}
	order := r.limit(r.order(want, tips, dateOrder, first), minParents, maxParents, max)
	if reverse {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	if count {
		return ExecResult{Out: strconv.Itoa(len(order)) + "\n"}
	}
	s := ""
	for _, c := range order {
		s += r.Commits[c].Hash
		if parents {
			for _, p := range r.Commits[c].Parents {
				s += " " + r.Commits[p].Hash
			}
		}
		s += "\n"
	}
	return ExecResult{Out: s}
}

var refRules = []string{"", "refs/", "refs/tags/", "refs/heads/", "refs/remotes/"}

// shortRef is the shortest name of a ref that is not ambiguous. Strictly no
// other rule may find anything by it, otherwise only the rules before.
func (r *GRepo) shortRef(n string, strict bool) string {
	exists := func(name string) bool {
		if name == "HEAD" {
			return true
		}
		for _, f := range r.Refs {
			if f.Name == name {
				return true
			}
		}
		return false
	}
	try := func(short string, rule int) bool {
		for k := range refRules {
			if k != rule && (strict || k < rule) && exists(refRules[k]+short) {
				return false
			}
		}
		return rule == 5 || !strict || !exists("refs/remotes/"+short+"/HEAD")
	}
	if strings.HasPrefix(n, "refs/remotes/") && strings.HasSuffix(n, "/HEAD") {
		if short := n[len("refs/remotes/") : len(n)-len("/HEAD")]; try(short, 5) {
			return short
		}
	}
	for k := 4; k > 0; k-- {
		if strings.HasPrefix(n, refRules[k]) && try(n[len(refRules[k]):], k) {
			return n[len(refRules[k]):]
		}
	}
	return n
}

func (r *GRepo) forEachRef(args []string) ExecResult {
	format := "%(objectname) %(objecttype)\t%(refname)"
	var pats []string
	var among [][]bool
	count := -1
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--format" && i+1 < len(args):
			i++
			format = args[i]
		case strings.HasPrefix(a, "--format="):
			format = a[9:]
		case strings.HasPrefix(a, "--count="):
			count, _ = strconv.Atoi(a[8:])
		case a == "--sort=refname" || a == "--sort" && i+1 < len(args) && args[i+1] == "refname":
			if a == "--sort" {
				i++
			}
		case a == "--merged" || a == "--no-merged" || strings.HasPrefix(a, "--merged=") || strings.HasPrefix(a, "--no-merged="):
			c := r.Head
			if k := strings.IndexByte(a, '='); k > 0 {
				c = r.find(a[k+1:])
			} else if i+1 < len(args) {
				i++
				c = r.find(args[i])
			}
			if c < 0 {
				return badRev(a)
			}
			m := r.Reach(c)
			if strings.HasPrefix(a, "--no") {
				for k := range m {
					m[k] = !m[k]
				}
			}
			among = append(among, m)
		case strings.HasPrefix(a, "-"):
			Unsupported("git for-each-ref " + a)
		default:
			pats = append(pats, a)
		}
	}
	refs := append([]GRef{}, r.Refs...)
	sort.SliceStable(refs, func(i, j int) bool { return refs[i].Name < refs[j].Name })
	s := ""
	for _, f := range refs {
		ok := len(pats) == 0
		for _, p := range pats {
			p = strings.TrimSuffix(p, "/")
			if f.Name == p || strings.HasPrefix(f.Name, p+"/") {
				ok = true
			}
		}
		for _, m := range among {
			ok = ok && m[f.Commit]
		}
		if !ok || count == 0 {
			continue
		}
		count--
		for k := 0; k < len(format); k++ {
			if format[k] != '%' || k+1 >= len(format) || format[k+1] != '(' {
				s += format[k : k+1]
				continue
			}
			e := k + strings.IndexByte(format[k:], ')')
			switch fld := format[k+2 : e]; fld {
			case "objectname":
				s += r.Commits[f.Commit].Hash
			case "objecttype":
				s += "commit"
			case "refname":
				s += f.Name
			case "refname:short":
				s += r.shortRef(f.Name, true)
			case "refname:lstrip=2", "refname:strip=2":
				s += strings.SplitN(f.Name, "/", 3)[2]
			case "refname:lstrip=3", "refname:strip=3":
				p := strings.SplitN(f.Name, "/", 4)
				s += p[len(p)-1]
			case "symref":
				if f.Sym {
					s += "refs/remotes/origin/x"
				}
			case "committerdate":
				s += "Sun Sep 13 12:26:40 2020 +0000"
			default:
				Unsupported("git for-each-ref %(" + fld + ")")
			}
			k = e
		}
		s += "\n"
	}
	return ExecResult{Out: s}
}

// Attribution gives, for every line of a file of a commit, the commit that
// introduced it, along the first parents that have it.
func (r *GRepo) Attribution(c int, path string) []int {
	res, _, _ := r.attribution(c, path)
	return res
}

// attribution also gives the line number and path in the introducing version.
func (r *GRepo) attribution(c int, path string) (res, orig []int, names []string) {
	f := r.Commits[c].File(path)
	if f == nil {
		return nil, nil, nil
	}
	names = make([]string, len(f.Lines))
	res = make([]int, len(f.Lines))
	orig = make([]int, len(f.Lines))
	for i := range res {
		res[i] = -1
	}
	for _, p := range r.Commits[c].Parents {
		pf := r.Source(p, c, path)
		if pf == nil {
			continue
		}
		pa, po, pn := r.attribution(p, pf.Path)
		kp, kf := lcs(pf.keyed(), f.keyed())
		j := 0
		for i := range f.Lines {
			if !kf[i] {
				continue
			}
			for !kp[j] {
				j++
			}
			if res[i] < 0 {
				res[i], orig[i], names[i] = pa[j], po[j], pn[j]
			}
			j++
		}
	}
	for i := range res {
		if res[i] < 0 {
			res[i], orig[i], names[i] = c, i, path
		}
	}
	return
}

// Source is the file of parent p that a file of commit c comes from.
func (r *GRepo) Source(p, c int, path string) *GFile {
	for _, ch := range TreeDiff(r.Commits[p].Files, r.Commits[c].Files, true) {
		if ch.New != nil && ch.New.Path == path {
			return ch.Old
		}
	}
	return r.Commits[p].File(path)
}

func (r *GRepo) blame(args []string) ExecResult {
	rev, path := "HEAD", ""
	porcelain, all := false, false
	for i, a := range args {
		switch {
		case a == "--porcelain" || a == "-p":
			porcelain = true
		case a == "--line-porcelain":
			porcelain, all = true, true
		case a == "--":
			if i+1 < len(args) {
				path = args[i+1]
			}
		case strings.HasPrefix(a, "-"):
			Unsupported("git blame " + a)
		default:
			if i == len(args)-1 {
				path = a
			} else {
				rev = a
			}
		}
	}
	if !porcelain {
		Unsupported("git blame without --porcelain")
	}
	c := r.find(rev)
	if c < 0 {
		return ExecResult{Code: 128, Err: "fatal: bad revision '" + rev + "'\n"}
	}
	f := r.Commits[c].File(path)
	if f == nil {
		return ExecResult{Code: 128, Err: "fatal: no such path '" + path + "' in " + rev + "\n"}
	}
	att, orig, names := r.attribution(c, path)
	joins := func(i int) bool { return att[i] == att[i-1] && orig[i] == orig[i-1]+1 }
	var b []byte
	shown := map[int]bool{}
	head := func(i int) (b []byte) {
		a := &r.Commits[att[i]]
		b = append(b, "\nauthor "+a.Author+"\nauthor-mail <"+a.AEmail+">\nauthor-time 1600000000\nauthor-tz +0000\ncommitter "+a.CName+"\ncommitter-mail <"+a.CEmail+">\ncommitter-time 1600000000\ncommitter-tz +0000\nsummary "+a.Subject...)
		if len(a.Parents) == 0 {
			b = append(b, "\nboundary"...)
		}
		return append(b, "\nfilename "+GitQuoted("", names[i], r.QuoteHigh)...)
	}
	for i, l := range f.Lines {
		a := &r.Commits[att[i]]
		b = append(b, a.Hash...)
		b = append(b, " "+strconv.Itoa(orig[i]+1)+" "+strconv.Itoa(i+1)...)
		if i == 0 || !joins(i) {
			n := 1
			for i+n < len(att) && joins(i+n) {
				n++
			}
			b = append(b, " "+strconv.Itoa(n)...)
			if !shown[att[i]] && !all {
				shown[att[i]] = true
				b = append(b, head(i)...)
			}
		}
		if all {
			b = append(b, head(i)...)
		}
		b = append(b, "\n\t"...)
		b = append(b, l.Text...)
		b = append(b, '\n')
	}
	return ExecResult{Out: string(b)}
}

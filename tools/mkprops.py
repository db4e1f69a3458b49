#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
I='ripsrc/history3/incblame/'; H='ripsrc/history3/process/'; R=H+'repo/'; B='ripsrc/branches2/'
p('C01','Applying a patch reproduces the new file exactly',
 "For every previous version of a text file and every patch git emits for a change to it (with its default three lines of context), applying the patch to the previous blame yields exactly the lines of the new version, in order and byte for byte (line terminators aside). This includes content that imitates patch syntax, several hunks in any distance of each other, empty files, whole-file insertion or removal, and a missing newline at end of file.",
 ['inputs'],'every old file, every edit script over it, every line content, every hunk placement',
 'The unit tests apply a handful of fixed patches; offsets, hunk counts, hunk gaps and line bytes are unbounded inputs.',
 [I+'apply.go',I+'parse.go',I+'parse_utils.go'],[('patch parser',I+'parse.go Parse'),('hunk header parser',I+'parse_utils.go parseContext'),('patch application',I+'apply.go Apply')],
 ['result of parsing and applying one patch'])
p('C02','Untouched lines keep their author commit, added lines get the new one',
 "When a commit changes a text file, every line the patch leaves in place keeps the commit it was attributed to before, every line the patch adds is attributed to the new commit, and the file as a whole is stamped with the new commit. Applying a patch or a merge never alters blame data produced earlier for other commits.",
 ['inputs','histories'],'every previous blame, every patch, every commit id; every later use of the same previous blame',
 'Tests compare a few final blames; none re-reads the parent blame after a child was derived from it, and attribution errors depend on where in the file the edit lies.',
 [I+'apply.go',I+'apply_merge2.go'],[('patch application',I+'apply.go Apply'),('merge application',I+'apply_merge2.go ApplyMerge')],
 ['commit of each line of the returned blame','parent blames after the call'])
p('C03','Merge commits attribute each line to the right parent',
 "For a merge commit with any number of parents, a line of the merged file that some parent already had unchanged keeps the attribution of the first such parent, and only a line that came from no parent is attributed to the merge commit. The merged content is exactly the content of the merged file.",
 ['inputs','histories'],'every number of parents, every parent blame, every combination of per-parent patches leading to the same file',
 'The tests hold three or four concrete merges with two or three parents.',
 [I+'apply_merge2.go',I+'apply.go',H+'process.go'],[('merge application',I+'apply_merge2.go ApplyMerge')],['lines of the returned blame'])
p('C04','File identity in a patch header is decoded exactly',
 "From the header git prints for one file of a commit, the previous path, the new path and whether the file was created, deleted, renamed or is binary are recovered exactly, whatever characters the paths contain (spaces, text that imitates header syntax, names git prints in quotes). No patch header git can print makes processing crash.",
 ['inputs'],'every pair of paths and every kind of change, rendered as git renders them',
 'Tests list a dozen header lines; path bytes are arbitrary and the header grammar is ambiguous for paths with spaces.',
 [I+'parse.go',I+'parse_utils.go'],[('declaration parser',I+'parse_utils.go parseDiffDecl'),('extended header lines',I+'parse.go parser.line')],['paths and flags of the parsed diff'])
p('C05','The history stream is split into exactly the commits and patches it holds',
 "From the text git prints for a history, exactly the printed commits come out, once each and in printed order, each with its own hash, for a merge the parent it was compared with, and exactly its own file patches unaltered (line terminators aside). Commit messages, author lines and patch content never leak into, split, merge or drop commits or patches, whatever text they contain.",
 ['inputs'],'every sequence of log entries: any number of commits, messages, patches, line contents',
 'Tests parse four fixed logs; message and patch bytes are arbitrary and may imitate the log syntax.',
 [H+'parser/parser.go'],[('log state machine',H+'parser/parser.go Parser.line')],['commits delivered by the log parser'])
p('C06','Linear history: every commit yields exactly its changed files, correctly blamed',
 "Processing a history without merges delivers one result per commit, in history order, naming exactly the files that commit added, changed, renamed or deleted. Each delivered file has exactly its content at that commit (line terminators aside) with every line attributed to the commit that introduced it, across renames, deletions and re-creations, empty commits and changes between text and binary (a file that git reports as binary is delivered flagged as such, without line attribution).",
 ['histories','inputs'],'every linear history of file operations with arbitrary contents',
 'The repository tests replay about thirty fixed repositories; the effect of an operation depends on the whole history before it.',
 [H+'process.go',H+'parser/parser.go',I+'apply.go',R+'repo.go'],[('regular commit processing',H+'process.go processRegularCommit'),('log command',H+'process.go gitLogPatches')],['results of a processing run'])
p('C07','Branching history: merges see each parent at its own state',
 "Processing a history with branches and merges delivers exactly one result per commit, parents before children, and each branch's files are computed from that branch's own parent and never from a sibling. A merge delivers exactly the files that differ from every parent, attributed line by line (files it takes over from a parent may be left out), and every later result is computed from the merge commit's own tree, where files taken over keep their blame from a parent that has the same version.",
 ['histories'],'every commit graph with merges, every assignment of file operations to its commits',
 'Only fixed repositories with one or two merges are tested; which parent is consulted depends on graph shape and emission order.',
 [H+'process.go'],[('merge processing',H+'process.go processMergeCommit'),('merge part collection',H+'process.go processCommit')],['results of a processing run','blame of later commits built on the merge'])
p('C08','Blame state is kept while needed and dropped when it is not',
 "During a processing run the blame state of a commit is never discarded while some child of that commit is still to be processed. State of finished commits is retained for at least the most recent finished commits up to a fixed limit (1000) and discarded beyond it, oldest first, so memory does not grow with history length.",
 ['histories'],'every commit graph and processing order; every number of finished commits',
 'No test has more than a few dozen commits; the limit is a thousand.',
 [R+'repo.go',H+'process.go'],[('unloader',R+'repo.go Unloader.Unload'),('child counting',H+'process.go trimGraphAfterCommitProcessed')],['commits present in the in-memory repository after each commit'])
p('C09','A written checkpoint reads back as the same blame state',
 "Reading a checkpoint returns exactly the state that was written: the same commits, including commits without files, the same files in each, and for each file the same commit, binary flag and lines with their content and attribution. This holds for every content, including empty files, empty lines, repeated and shared lines, and distinct lines that share the hash by which the storage deduplicates.",
 ['inputs','histories'],'every blame state (commits, files, lines, sharing), every line content',
 'One test writes one small state; sharing patterns, empty parts and hash collisions are not sampled.',
 [R+'writer.go',R+'reader.go',R+'msgp.go',R+'disk/disk_gen.go'],[('writer',R+'writer.go'),('reader',R+'reader.go'),('encoding',R+'disk/disk_gen.go')],['state returned by the reader'])
p('C10','A crash or I/O error while saving never yields a wrong checkpoint',
 "If the process stops, or a file operation fails, at any point while a checkpoint is being saved, a later read returns either the complete previous state, the complete new state, or an error, never a partial or mixed state. A failed save is reported to the caller, an I/O error before the replacement begins leaves the previous checkpoint intact, and at no point is neither the complete previous nor the complete new checkpoint on disk.",
 ['crash_points','fault_sequences'],'every crash point between file operations and every failing file operation during a save over an existing checkpoint',
 'No test interrupts a save or injects an I/O error.',
 [R+'writer.go',R+'msgp.go',R+'reader.go'],[('temporary directory and rename',R+'writer.go Write'),('file finish',R+'msgp.go Finish')],['outcome of reading after the interrupted save'])
p('C11','Resuming from a checkpoint equals processing everything at once',
 "For every history (within the retention limit) and every point in it, processing up to that point, saving, and then resuming delivers for the remaining commits the same results as one uninterrupted run. When there are commits to process, a strict resume from any commit other than the one the checkpoint was saved at is refused with an error; with strictness disabled it is accepted from every commit the checkpoint holds.",
 ['histories'],'every history and every split point (inclusive or exclusive resume)',
 'Two fixed repositories are resumed at one fixed commit each.',
 [H+'process.go',R+'reader.go',R+'writer.go'],[('checkpoint initialisation',H+'process.go initCheckpoints'),('version check',R+'reader.go Read')],['results of the resumed run'])
p('C12','Commit metadata is reported exactly as recorded in git',
 "For every commit in the selected range its hash, parents, author and committer name and e-mail, author date, subject and position are reported exactly, whatever text they contain and however long they are. For commits that are not merges each changed file is reported once with its path, added, modified or removed status (a rename being the removal of the old and the addition of the new name), line counts and binary flag.",
 ['inputs','histories'],'every sequence of commits with arbitrary header texts and file changes',
 'Tests use three fixed repositories with plain names.',
 ['ripsrc/commitmeta/commitmeta.go'],[('log parser','ripsrc/commitmeta/commitmeta.go parser.parse')],['commits delivered by the metadata reader'])
p('C13','The commit graph has exactly the edges of the repository',
 "The commit graph lists every commit of the selected history with exactly its parents in recorded order, root commits included. Its child lists are exactly the inverse of the parent lists, without omissions or extras, in a fixed order, and exist for every commit even when empty.",
 ['histories','inputs'],'every commit graph','Tests check a few graphs of at most five commits.',
 ['ripsrc/parentsgraph/parents.go','ripsrc/parentsgraph/parentsp/parser.go'],[('child inversion','ripsrc/parentsgraph/parents.go childrenFromParents'),('parser','ripsrc/parentsgraph/parentsp/parser.go')],['parent and child maps'])
p('C14','A branch lists exactly its own commits and its branch points',
 "For a branch not merged into the default branch, its commits are exactly those reachable from its head and not from the default head, each once, with the head last; for a merged branch, those reachable from its head and not otherwise reachable from the default head. Its branch points are exactly the default-branch commits from which those commits start, leaving out any that is a descendant of another one, in a fixed order.",
 ['histories'],'every commit graph, every choice of default head and branch head',
 'Unit tests hold about ten graphs with at most five commits.',
 [B+'branch_commits.go',B+'process.go'],[('reachability',B+'branch_commits.go newReachableFromHead'),('collection',B+'branch_commits.go branchCommits'),('branch points',B+'branch_commits.go dedupLinearFromHead')],['Commits and BranchedFromCommits of a branch'])
p('C15','Branch status, ahead and behind counts and first and merge commits are right',
 "A branch is reported merged exactly when its head is reachable from the default head, and then its merge commit is a child of its head on the default branch whenever one exists. For an unmerged branch that shares history with the default branch the behind count is the number of default-branch commits not reachable from the branch; the ahead count is the number of the branch's own commits. The first commit is one of the branch's own commits that has no parent among them.",
 ['histories'],'every commit graph, every choice of default head and branch head',
 'Two behind-count tests and three merge-commit tests on graphs of at most five commits.',
 [B+'behind_branch.go',B+'merge_commit.go',B+'process.go'],[('behind count',B+'behind_branch.go behindBranch'),('merge commit',B+'merge_commit.go getMergeCommit')],['fields of a reported branch'])
p('C16','Every branch and pull request is listed exactly once under any scheduling',
 "Listing branches reports every branch of the repository exactly once with its own name and head, the default branch only as such, and every distinct known pull request commit exactly once, while unknown pull request commits are skipped. This holds for every branch name git allows, for local and for remote-tracking branches, and for every interleaving of the concurrent workers, which always finish.",
 ['schedules','inputs','configurations'],'every set of refs with legal names, every list of pull request hashes, every interleaving of workers',
 'Tests list two branches of two repositories under one schedule.',
 [B+'process.go',B+'name_hash.go','ripsrc/branchmeta/branchmeta.go','ripsrc/branches.go'],[('worker pool',B+'process.go Run'),('ref listing','ripsrc/branchmeta/branchmeta.go Get')],['branches delivered on the result channel'])
p('C17','File eligibility follows the documented limits for every file',
 "A file is analysed only if it is at most one million bytes, has at most 40000 lines, no line longer than 1096 bytes, is not configuration, hidden, excluded or vendored by path, and has a recognised language; otherwise it is skipped with the reason that applies and no language is reported. The decision for a file depends only on its own path and content, not on files examined before.",
 ['inputs','histories'],'every size, line count and line width around and away from the limits; every order of files examined',
 'Tests probe one value on one side of each limit.',
 ['ripsrc/fileinfo/fileinfo.go'],[('limits','ripsrc/fileinfo/fileinfo.go GetInfo'),('path cache','ripsrc/fileinfo/fileinfo.go checkFilePath')],['language, licence and skip reason'])
p('C18','Per-file records agree with the blame, the commit and the file status',
 "Every changed file of a commit that the commit's metadata knows gives exactly one record carrying that commit's metadata and status. A removed file gives a record without lines; an analysed file gives one line entry per file line, in order, with the hash, author and date of the commit that the line is attributed to, and the comment, code or blank kind of that very line (except in files that carry a generated-code marker), the record's size being that of all its lines with their terminators.",
 ['inputs','histories'],'every set of changed files, statuses, line attributions and line kinds',
 'The end-to-end tests compare a handful of records from six fixed repositories.',
 ['ripsrc/code_info.go','ripsrc/code.go'],[('record building','ripsrc/code_info.go codeInfoFiles'),('line kinds','ripsrc/code_info.go ProcessLine')],['records delivered to the caller'])
p('C19','Output of a full git blame is decoded line by line exactly',
 "From the porcelain output of a full blame every line of the file is recovered once, in order, with its exact content and the commit it is attributed to. Commit metadata in the output, whatever text it contains, never changes a line, and line content never changes attribution.",
 ['inputs'],'every sequence of blame entries, metadata texts and line contents','Tests parse one fixed output and run three fixed files.',
 ['ripsrc/gitblame2/parse_output.go','ripsrc/gitblame2/gitblame.go'],[('porcelain parser','ripsrc/gitblame2/parse_output.go parseOutput')],['lines returned by the full blame'])
p('C20','Repository discovery visits each repository exactly once',
 "Given a directory, discovery reports exactly the directories that are git repositories (containing a .git directory, or bare repositories named *.git with an objects directory) down to the permitted depth, each once, and does not descend into a repository that has a .git directory (repositories inside a bare one are optional). Files and unreadable paths never count as repositories, and an error from processing stops the walk and is returned.",
 ['inputs','configurations'],'every directory tree up to the permitted depth','There is no test.',
 ['ripsrc/pkg/gitrepos/gitrepos.go'],[('walk','ripsrc/pkg/gitrepos/gitrepos.go IterDir')],['directories passed to the callback'])
p('C21','The command line reports failure exactly when something failed',
 "The code and branches commands process every discovered repository even if another one fails, and exit with a non-zero status exactly when the directory could not be read, no repository was found, or at least one repository failed for a reason other than being empty (its HEAD naming no commit). A success message is printed only when nothing failed.",
 ['fault_sequences','configurations'],'every combination of succeeding, empty and failing repositories','The commands have no test.',
 ['ripsrc/cmd/cmdcode/cmd.go','ripsrc/cmd/cmdbranches/cmd.go','ripsrc/cmd/cmdutils/errors.go'],[('exit helpers','ripsrc/cmd/cmdutils/errors.go'),('per-repository loop','ripsrc/cmd/cmdcode/cmd.go runOnDirs')],['exit status and messages'])
p('C22','Result streams always end and git failures come back as errors',
 "Whatever git does (succeeds, fails to start, fails after any part of its output, or answers for a repository that gained commits since the previous command) every call that streams results returns, closes its result channel, and reports the failure as an error instead of crashing the calling process, hanging, or presenting a truncated history as complete. This holds for every interleaving of the goroutines involved.",
 ['fault_sequences','schedules'],'every git command failing at any point of its output, or answering for a repository that has moved since the previous command; every interleaving',
 'No test makes git fail.',
 ['ripsrc/gitexec/gitexec.go',H+'process.go','ripsrc/commitmeta/commitmeta.go','ripsrc/parentsgraph/parents.go','ripsrc/code.go','ripsrc/branches.go'],[('piped execution','ripsrc/gitexec/gitexec.go ExecPiped')],['error returned and channel closure'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P),'properties')

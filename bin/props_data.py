# --- remote <-> local mirror -------------------------------------------------
p('C01','Bootstrapping mirrors the included remote objects one to one',
 "After a recursive bootstrap of a remote tree into a freshly anchored folder, the local tree holds exactly one entry per included remote object at the object's remote path - a real directory for a directory, a metadata-carrying placeholder for a file - each carrying that object's id and metadata, and nothing else. The only/skip selections decide inclusion for the objects directly under the root and for everything below them, a sparse selection of one of them leaves out the files below it that are not selected and marks it as sparse, and the root itself is always included. Bootstrapping again without remote changes alters nothing but still yields every included object, adds what the remote gained, brings changed metadata in line, completes what was interrupted, and never touches data already fetched or what the user made.",
 ['inputs','histories'],'every remote tree shape, selection and earlier local state',
 'The suite bootstraps one fixed two-file tree once; no selection, no repeat and no nested shape is checked against an independent account of the remote.',
 [K,R],[('CachePath.bootstrap/_bootstrap/_bootstrap_recursive',K),('RemotePath.bootstrap, cache_init, as_path',R)],
 [('placeholder','symlink whose target encodes the metadata',K),('cached metadata','xattrs on files and directories',K)])
p('C02','Refreshing converges on the remote and never destroys local-only data',
 "Refreshing a cached path brings its local name, location, metadata and (when data had been fetched) content in line with the remote object of the same id, wherever that object was renamed, moved or modified, provided the folders above it are where the remote has them. If the remote object is gone, the local entry leaves the tree and its content is preserved in the trash. When the remote has a newer version, a refresh that would replace content that differs from both the recorded and the remote version is refused and leaves that content in place.",
 ['histories','inputs'],'every interleaving of remote edits (create, modify, rename, move, delete), local edits, fetches and refreshes',
 'The tests never refresh after a remote change; rename, reparent, delete and local-modification histories are not sampled at all.',
 [K,R],[('RemotePath.update_cache',R),('CachePath.refresh, crumple, move',K),('PrimaryCache._meta_updater',K)])
p('C03','Fetched data is exactly the remote data, or the failure is visible',
 "When fetching a file succeeds, the local file holds exactly the bytes the remote delivered, in order, and still carries the object's id and metadata. A delivered size different from the recorded size is reported as an error, a delivered checksum different from the recorded one is recorded in the file's metadata as a mismatch, and a file over the requested size limit is not downloaded. If an update that replaces fetched content fails part way, the earlier content and its metadata are put back. A fetch of a placeholder that fails puts the placeholder back.",
 ['inputs','fault_sequences','histories'],'every content, chunking, size limit, recorded size/checksum and point at which the remote fails',
 'Tests fetch nothing through the cache; truncated, corrupt, oversized, empty and failing transfers are not sampled.',
 [K,C],[('CachePath.fetch',K),('LocalPath.data setter',C),('PrimaryCache._meta_updater',K)])
p('C04','Cached metadata persists and updates follow the merge rules',
 "Metadata stored for a path is what any later handle on that path reads back, whether the path is a placeholder, a file or a directory, and it survives rewriting the file's data. An update replaces exactly the fields for which it brings a non-empty value, and records the previous id when the id changes. If the update shows the object itself changed (timestamps, size, checksum or file id), fields the update does not bring are dropped rather than carried over.",
 ['inputs','histories'],'every pair of old and new metadata, every representation, every sequence of updates and data writes',
 'The field-by-field merge has hundreds of presence/equality combinations; tests exercise one or two.',
 [K,C,M],[('PrimaryCache._update_meta, _meta_updater, _meta_setter',K),('EatCache.meta/_meta_setter',K),('LocalPath.data setter',C)])
p('C05','Conflicting placeholder metadata: the newest wins, nothing is lost',
 "When metadata is written onto a placeholder that already holds metadata of another id, the record with the later updated time (ties broken by the later created time) ends up in the placeholder, and an equal or undecidable comparison leaves the existing record. Metadata without a size never replaces metadata that has one. A record that is replaced is kept in the trash under its own id, and writing metadata identical to the existing record changes nothing.",
 ['inputs','histories'],'every pair of records over presence and order of updated, created, size and id, and every sequence of writes',
 'The comparison ladder has dozens of branches (missing/equal/older/newer on two fields); no test drives it.',
 [K],[('SymlinkCache.meta setter',K),('_CachePath.crumple',K),('_CachePath.dedupe',K)])
p('C06','Metadata survives every stored form unchanged',
 "Metadata written as a symlink target, as extended attributes, as a metastore blob or through copying/pickling and read back is equal to what was written, field by field, for every value the form can represent; a value the symlink form cannot represent is refused when writing, never silently altered. Placeholders written by every earlier version of the symlink format are still read with the meaning that version gave them.",
 ['inputs'],'every combination of present fields and every printable field value, every format version',
 'Tests round-trip a handful of fixed records; the escape characters, empty values and old layouts are combinatorial.',
 [M],[('_PathMetaAsSymlink.encode/decode',M),('_PathMetaAsXattrs.encode/decode',M),('PathMeta.as_metastore/from_metastore',M)])
p('C07','Moving a cached path carries id, metadata and content, overwrites nothing',
 "Moving a cached path to a target leaves the target holding the moved object's id, metadata and content and the source gone; missing parent folders are created and carry their own remote ids. A target occupied by a different object is never overwritten: the move is refused and both objects keep their content and metadata. A move onto itself changes nothing.",
 ['inputs','histories','fault_sequences'],'every source kind (placeholder, file, directory), target kind (free, same id, other id, missing parents) and way of naming the target',
 'test_move covers fixed combinations of a single rename with a free or identical target and does not check the metadata of created parents or that refused moves change nothing.',
 [K,C,R],[('_CachePath.move',K),('LocalPath.mkdir_cache',C),('EatPath.__new__',C)])
p('C08','Anchoring binds one remote root to one local folder',
 "A remote class is anchored to at most one local folder at a time: anchoring to a second place is refused and leaves the existing anchor, its folder and its recorded id unchanged, and after the anchor is lifted it can be anchored again. Anchoring creates the root folder when missing, never adopts a non-empty folder that is not already the anchor of that root, records the remote root's id in the folder, and refuses a folder that records a different id.",
 ['histories','configurations'],'every sequence of binding, initialising, anchoring (drop, smart, to path), and lifting operations over folders that are missing, empty, occupied, cached with the same or another id',
 'Tests anchor once in setup; the state machine over anchoring calls and folder states is never explored.',
 [R,K,C],[('RemotePath.dropAnchor/smartAnchor/anchorTo/anchorToCache/weighAnchor',R),('_CachePath.anchorClassHere, local_data_dir_init',K),('LocalPath.cache_init',C)])
# --- file system operations -------------------------------------------------
p('C09','Recursive removal stays inside the named tree',
 "Recursive removal deletes the named path and everything below it and nothing else: symbolic links are removed, never followed. An error handler is told the call that failed and the path it was for. Without the explicit override it refuses, before deleting anything, relative paths, top-level paths, home directories and the working directory. Removing empty directory trees deletes a directory exactly when everything below it is empty directories, and never a file or link.",
 ['inputs','configurations'],'every directory tree with files, directories and links (inside, outside, dangling, looping), every spelling of the path, every working directory',
 'Tests remove two or three fixed trees; link placements and refused spellings are not enumerated.',
 [C,G],[('AugmentedPath.rmtree',C),('AugmentedPath.rmdirtree',C),('RepoPath.rmtree',G)])
p('C10','Swapping exchanges two paths completely or changes nothing',
 "A successful swap leaves each path with exactly what the other held, for files, directories and links to existing things alike, whether the paths are absolute or relative. If either path is missing or the swap cannot be done, an error is raised and both paths are unchanged. The lenient variant does the same when no atomic exchange is available, leaves no temporary entries behind, and loses neither content if a step fails.",
 ['inputs','fault_sequences','crash_points'],'every pair of path kinds, path spelling, availability of the atomic call and failing step',
 'Tests swap two existing plain files once.',
 [C,S],[('AugmentedPath.swap/swap_carefree',C),('swap_linux',S)])
p('C11','Copying never clobbers and always copies exactly',
 "Copying to a path where anything exists, including a dangling link, is refused and changes nothing unless forced. A successful copy leaves the target with exactly the source's bytes and the source unchanged, for every copy direction (to, from, out to a directory, in from a file) and also when source and target are the same file. Copying into something that is not a directory is refused, and cached metadata is carried over exactly when requested. Copies of plain paths (not local paths of a cache) keep the permissions and the modification time.",
 ['inputs'],'every source content, target kind, force flag and copy direction',
 'Tests copy one small file to one free and one existing target.',
 [C],[('AugmentedPath.copy_to/copy_from/copy_outto/copy_infrom',C),('LocalPath.copy_to/copy_from',C)])
p('C12','Scoped directory changes always restore the working directory',
 "Entering a directory path as a context makes it the working directory, and leaving it, normally or by an exception, restores the directory that was current on entry, for any nesting and interleaving of contexts, including re-entering the same path object. Pushing and popping directories behaves as a stack: each pop returns to the selected pushed directory and removes it, and a push or pop that is refused or fails (an empty stack, a directory that is gone or may not be entered) changes nothing.",
 ['histories'],'every sequence of enter, exit, exception, push, pop(n) and plain directory changes, with directories that vanish or may not be entered',
 'Tests use one non-nested context.',
 [C,K],[('AugmentedPath.__enter__/__exit__',C),('AugmentedPath.pushd/popd',C),('_CachePath.__enter__',K)],
 [('directory stack','previously current directories, latest last',C)])
p('C13','Reading and writing in chunks moves exactly the requested bytes',
 "Reading a file's data yields its bytes in order, and reading ranges yields exactly the bytes of each requested range in the requested order, for every chunk size. Writing from a stream of chunks makes the file exactly their concatenation (or appends it), passing the chunks through unchanged where it forwards them, whatever the chunk boundaries and including no data at all. A stream that fails before its first chunk leaves the existing file untouched.",
 ['inputs','fault_sequences'],'every content length, chunk size, list of ranges, chunking of the written stream and failure position',
 'Tests read one small file with the default chunk size and never use ranges or failing streams.',
 [C],[('LocalPath._data, data',C),('LocalPath._write_chunks, _data_setter',C)])
p('C14','Digests depend only on content, and validation detects differences',
 "A file's checksum with any requested algorithms and its multipart tag for any part size equal the digests of its bytes as defined by the algorithm, however the bytes were chunked when fed and even if intermediate digests were taken. Validating a cached file against its recorded tag, checksum or size reports every difference and reports none when they agree.",
 ['inputs','histories'],'every content length, part size, chunking, position of early digests and recorded values',
 'Tests compare one or two lengths with one chunking.',
 [U,C,K],[('etag.update/digest',U),('AugmentedPath.checksum, LocalPath.etag',C),('_CachePath.validate_file',K)])
p('C15',"Local metadata always describes the file as it is now",
 "The metadata reported for a local path reflects its current size, times, owner, mode, inode and (when requested) checksum and multipart tag, however often and in whichever form it was requested before on the same object and whatever changed in between. A request that includes a checksum or tag gets it even if an earlier request did not. A missing path reports only its identity, and appears with full metadata as soon as it exists.",
 ['histories'],'every interleaving of content, mode, time and existence changes with metadata requests of every form on one object',
 'Tests request metadata once per object.',
 [C],[('LocalPath._meta_maker',C)],[('memoised metadata','last metadata and the times it was computed for',C)])
p('C16','Extended attributes behave as a per-file key-value store',
 "Setting an attribute makes exactly that value readable on that path and leaves other attributes, other paths and the content unchanged; deleting removes it; listing returns exactly the attributes present in the namespace; only byte values are accepted. Reading an absent attribute raises the dedicated error and deleting one is silent unless failure is requested; operations on a missing path raise an operating-system error. The sparse mark is inherited: a path is sparse exactly when it or an ancestor carries the mark.",
 ['histories','inputs'],'every sequence of set, set-many, get, delete, list, mark and clear over several paths and keys',
 'Tests set and read a couple of keys once.',
 [C],[('XattrHelper.setxattr/getxattr/delxattr/xattrs',C),('EatPath._sparse_root/_mark_sparse/_clear_sparse/is_sparse',C)])
# --- repositories -----------------------------------------------------------
p('C17','Every path resolves to its nearest enclosing repository',
 "A path's repository is the one rooted at the nearest ancestor (or itself) that contains a repository, its repository-relative path joined to that root is the path, and paths outside any repository report that they are not in one. This holds for relative and absolute spellings and after repositories are created, nested, removed and re-created. Initialising or cloning where the path is already in a repository is refused and changes nothing; a clone has the whole history of its source, or only as many of the last commits as were asked for.",
 ['histories','configurations'],'every sequence of init, clone, remove and query over a tree of nested folders and spellings',
 'Tests create one repository and query it once; removal, nesting and re-creation are not sampled.',
 [G],[('RepoHelper.working_dir, repo, repo_relative_path, init, clone_from',G),('RepoPath.rmtree',G)],
 [('repository cache','path to open repository object',G)])
p('C18','Committing one path commits only that path',
 "Committing a path records in the new commit exactly that path's staged (or, when asked, working-tree) content and message on top of the previous commit, and nothing else changes in it. Staged and unstaged changes to every other file, untracked files and existing stashes are the same before and after. The change queries and the version shown for the index, working tree or any commit agree with the repository's actual state at every point.",
 ['histories'],'every combination of staged, unstaged, untracked and stashed changes to several files before the commit',
 'Tests commit with one or two modified files and compare only the committed file.',
 [G],[('RepoHelper.commit, commit_from_working_tree, add_index',G),('RepoHelper.diff, modified, indexed, has_uncommitted_changes, show',G)])
p('C19','Visiting another ref restores the working state on leaving',
 "Entering a ref as a context checks out that ref's content with a clean tree, and leaving it, normally or by an exception, returns to the original branch with the same staged-or-unstaged content, untracked and ignored files that were there before. Stashes the user already had are untouched, nested visits unwind in order, and an invalid ref is refused without changing anything.",
 ['histories'],'every initial working state, target ref, work done while visiting and nesting',
 'Tests enter one ref with one untracked file.',
 [GP],[('_Reference.__enter__/__exit__',GP),('getRef, currentRefName',GP)])
p('C20','The next version is a legal successor of the current one',
 "For every version and requested phase the computed next version is strictly greater than the current one, is in the requested phase, and differs only as that transition requires: leaving a pre-release for its release keeps the release number, bumping a component zeroes the ones after it. Requests that would go backwards or skip (to an earlier pre-release, to dev from a pre-release, to post from anything but a release) are refused.",
 ['inputs','histories'],'every version shape and every sequence of phases',
 'Tests check a table of a few transitions; sequences and unusual release lengths are not covered.',
 [P],[('next_version, logic, cons_next, vinc, current_state',P)])
p('C21','Paths into a zip archive present exactly the archive',
 "Through a path that continues into a zip archive, the visible entries are exactly the archive's members and the directories leading to them: existence, directory-ness, children, all descendants and data agree with the archive, for nested folders, empty members and archives without directory records. Paths outside any archive behave like ordinary paths, and data of different archives is never mixed up.",
 ['inputs','configurations'],'every archive layout and every path at, above, inside and beside it',
 'Tests open one archive with two members.',
 [Z],[('ZipInternalPath._new, children, rchildren, data',Z),('ZipHelper.zip_path, zip_relative_path, exists',Z)])
p('C22','Path queries are total and consistent with the file system',
 "Existence, file, directory, link and broken-link queries answer truthfully without raising for every path, including dangling, self-referential and through-file paths. The relative path from one path to another leads back to it. Listing the children or all descendants of a cache root never yields its internal data folder while yielding everything else exactly once, and the cache root found from any path below an anchor, also one that reaches it through a link, is that anchor.",
 ['inputs','configurations'],'every arrangement of files, directories and links of each kind, every pair of paths, every cached tree',
 'Tests query a few fixed links and one pair of relative paths.',
 [C],[('exists, is_file, is_dir, is_symlink, is_broken_symlink, exists_not_symlink',C),('relative_path_from/relative_path_to, to_relative',C),('LocalPath.children, rchildren, find_cache_root, skip_cache',C)])
p('C23','A file seen over ssh is the file on the host',
 "For a path on a host reached over ssh, the reported existence, kind, size, times, owner, mode, checksum, access rights and data equal those of the actual file on the host at the time of the query, for names with spaces and for changing files. Directory listings report every entry with its own status and checksum, and a missing or unreadable path is reported as such, never as another file's answer, and data that a lost connection cut short is never taken for all of it.",
 ['inputs','histories'],'every file name, kind, permission and sequence of changes and queries within one session',
 'The ssh tests need a live sshd and are skipped here; even then they check one file.',
 [R,U],[('SshRemote._ssh, stat, checksum, access, children, data',R),('StatResult',U)])
p('C24','The remote address of a path names exactly that path',
 "For a path in a repository whose remote is on GitHub, however the remote's address is written in a form git accepts, the human, machine and API addresses name exactly the remote's organisation and full repository name (only a '.git' ending is left out), the ref asked for (when none is, the branch or commit checked out in the repository with that remote) and the path in the repository, so that decoding the address gives them back for every file name. A clone of a local repository has the addresses of what it was cloned from; for any other remote, and for a ref that does not exist, asking is refused. The path a clone would be made at is the one git picks from the remote's address.",
 ['inputs','configurations','histories'],'every way to write the remote, repository name, chain of local clones, ref, checked out state and file name, and changes of the remote and of what is checked out between queries',
 'The test calls the functions once on its own checkout and looks at no answer; clone_path is called with three addresses.',
 [G],[('RepoHelper._remote_helper, _remote_uri, remote_uri_human, remote_uri_machine, remote_uri_api, clone_path, clone_from',G)],
 [('remote','the first address of origin in the git config',G)])
p('C25',"A package's release state is that of its own tags and files",
 "For every path in a package, at the root of a repository or one of several in folders of it, and however the path is spelled: the package's folder is the nearest one with a setup.py; its latest tag is the nearest one behind what is checked out that is for a version of this package (the version alone for a package at the root, its name and the version otherwise), and never a tag of another package or one that is no version; the commits since the last release are exactly those not behind that tag (all when there is none) that changed a file a release contains, and everything in its folder counts when there is no manifest. The latest published and GitHub versions are the greatest published and the newest release of this package, and the next version follows from what is published, or is the one in the repository when nothing is. Asking changes nothing, the working directory included.",
 ['inputs','configurations','histories'],'every history of commits to several packages, tags, manifests, published versions and releases, queried from every path and working directory',
 'No test uses PackagePath; only the version arithmetic is tested.',
 [P],[('PackagePath.folder, setup_file, tag, version_tag, tag_prefix, version_repo, version_latest_*, version_next, tag_latest_github, release_files, commits_since_last_release',P)])

p('C26','The local, cached and remote views of an object lead to each other',
 "From the local path, the cache or the remote object of anything in a mirrored tree, every chain of conversions (local to cache to remote and back, by path, by name in a folder, by a fresh handle) arrives at the same object and the same path, whatever it and the folders above are called; an entry that belongs to no object has no cache. The parents and the path of a remote object are those it has on the remote, and its local and cached parents those of the local tree. Mirroring an object, with the missing folders above it if asked, listing the remote children or descendants of a folder, and making a remote folder from a local path create exactly those objects at the paths the remote has them, change nothing else, and the result is seen alike through every view; a refused request changes nothing.",
 ['inputs','histories'],'every tree of remote objects and names, moves of objects on the remote and here, and every sequence of mirroring, listing, making folders and conversions between the views',
 'The tests use one fixed tree one or two levels deep and never ask for the path of a remote through its cache.',
 [R,C,'augpathlib/core.py'],[('RemotePath.parts, as_path, parents, local, cache_init, _parts_relative_to, __eq__',R),('_CachePath.remote, local, __truediv__, children, rchildren',C),('LocalPath.cache, remote, cache_id, mkdir_remote, find_cache_root','augpathlib/core.py')])

p('C27','Setting up where a cache keeps its objects never loses one',
 "Initialising the internal data folder of a project, at the first anchoring, at every later one, or by hand, with the objects kept inside or in a folder outside that several projects may share, leaves the objects exactly where they were asked to be or refuses and changes nothing that was there: it removes no object and nothing in the trash, redirects no existing link, replaces no store that has something in it, does not depend on how the outside folder was spelled or on the working directory, and doing it again changes nothing. What one project fetched into a shared folder every project that shares it finds there, and what goes to the trash replaces nothing there.",
 ['inputs','histories'],'every state of the data folder, the store, the folders outside and the trash, every order of set up, anchoring, fetching, trashing, and removals by the user, for two projects',
 'The tests only ever create the data folder afresh and never link the objects elsewhere.',
 [C],[('_CachePath.local_data_dir_init, anchorClassHere, local_object_cache_path, local_objects_dir, trash, crumple',C)])

p('C28','Comparing metadata shows every field and sees every difference',
 "The table of a record of metadata shows exactly the fields it has, with their values and in a fixed order; the table of two records side by side shows every field of either exactly once, the same field of both on one line, marked if and only if the content differs. The content of two records differs if their checksums do, or, where one has none, if their sizes do or the other one is later; a record never differs from one that is equal to it, two records are equal exactly if all their fields are, however those were given (numbers, text or times), a record without any field is false and any other is true, and none of these fails for any combination of present and missing fields.",
 ['inputs'],'every combination of present and missing fields of two records, two values of each, in every spelling the constructor takes',
 'The tests never compare two records with different fields and do not use the side by side table.',
 [M],[('PathMeta.content_different, __eq__, __bool__, items, as_pretty, as_pretty_diff',M)])

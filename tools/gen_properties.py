#!/usr/bin/env python3
"""Author's source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

WS='bead/workspace.py'; ZA='bead/ziparchive.py'; BOX='bead/box.py'; RAW='bead/box_rawfs.py'; IDX='bead/box_index.py'
FS='bead/tech/fs.py'; TS='bead/tech/timestamp.py'; PER='bead/tech/persistence.py'; SH='bead/tech/securehash.py'
CW='bead_cli/workspace.py'; CI='bead_cli/input.py'; CC='bead_cli/common.py'; CB='bead_cli/box.py'; ENV='bead_cli/environment.py'
SK='bead_cli/web/sketch.py'; GR='bead_cli/web/graph.py'; GV='bead_cli/web/graphviz.py'; CL='bead_cli/web/cluster.py'; DU='bead_cli/web/dummy.py'; IO='bead_cli/web/io.py'; WC='bead_cli/web/commands.py'

p('C01','Saving a workspace captures exactly its code, output and metadata',
 'A successful save produces a bead whose code part holds exactly the regular files of the workspace outside its top-level input, output, temp and .bead-meta directories, whose data part holds exactly the regular files under output, each under its relative path and with its exact bytes, and nothing else. The bead records the workspace\'s kind, name, declared inputs and the freeze time, and the result passes validation. The workspace itself is left unchanged.',
 ['inputs','configurations'],'every workspace tree (nesting, file names, contents, names equal to reserved directories at any depth, loaded or unloaded inputs) and compression setting',
 'Tests save a couple of fixed trees; a wrong exclusion rule, a swapped prefix or a dropped nested file needs a tree of a particular shape.',
 [WS,BOX],[('add_code/is_code exclusion','bead/workspace.py:_ZipCreator.add_code'),('add_data','bead/workspace.py:_ZipCreator.add_data'),('add_meta and manifest','bead/workspace.py:_ZipCreator.add_meta')],['bead save','zip archive content'])
p('C02','Editing a saved bead restores its source and its input definitions',
 'Editing a bead creates a valid workspace containing exactly the bead\'s code files with identical bytes, the same kind, and the same inputs (name, kind, content id, freeze time), none of which is loaded. With review requested the output directory additionally holds exactly the data files; without it the output directory is empty. Loading a bead as an input makes exactly its data files, byte for byte, available under the input\'s directory.',
 ['inputs','histories'],'every bead content (file names, nesting, contents, inputs) and every save/edit/load sequence of it',
 'Tests use one README per bead and check substrings; mixing code and data, dropping nested files, losing an input attribute needs other shapes.',
 [ZA,WS,CW,CI],[('extract_dir','bead/ziparchive.py:ZipArchive.extract_dir'),('unpack_to','bead/bead.py:Archive.unpack_to'),('Workspace.load','bead/workspace.py:Workspace.load')],['bead edit','bead input add'])
p('C03','Validation exposes every tampering with a saved bead',
 'Starting from a saved bead, adding a file under its code or data, or removing, renaming or changing the bytes of any code file, data file or of its metadata while keeping its manifest, makes validation fail. If the manifest is also changed then the bead\'s content id changes. Untampered saved beads always validate.',
 ['inputs'],'every saved bead and every single or double modification of its members, including duplicate member names, with or without a forged manifest',
 'Tests use one hacked archive; the checks in validation must hold for each kind of member and each kind of modification.',
 [ZA,WS,SH],[('_checks','bead/ziparchive.py:ZipArchive._checks'),('calculate_content_id','bead/ziparchive.py:ZipArchive.calculate_content_id')],['ZipArchive.validate','ZipArchive.content_id'])
p('C04','Unpacking a bead never writes outside the target directory',
 'Whatever the member names in an archive (parent references, absolute names, empty or dot components, backslashes), editing it or loading its data creates or modifies files only inside the destination directory: it either extracts there or refuses the bead.',
 ['inputs'],'every archive, including hostile ones whose metadata and manifest are consistent',
 'No test uses a hostile member name; names are an infinite space and the damage depends on exact path normalisation.',
 [ZA],[('extract_file path computation','bead/ziparchive.py:ZipArchive.extract_file'),('extract_dir','bead/ziparchive.py:ZipArchive.extract_dir')],['bead edit','bead input add','file system'])
p('C05','The content id depends on the content and on nothing else',
 'Saving the same code, data, kind, name, inputs and freeze time yields the same content id, whatever the directory listing order, the location of the workspace, the box, the archive comment or compression. Any difference in a code or data file\'s path or bytes, or in kind, name, inputs or freeze time yields a different content id.',
 ['inputs','configurations'],'all pairs of workspaces within the bounds and all environment differences (listing order, location, compression, creation history)',
 'Tests never save the same content twice in different environments, nor compare ids across small changes.',
 [WS,SH,PER],[('manifest built with sorted keys','bead/tech/persistence.py:JSON_SAVE_OPTIONS'),('manifest hashed as content id','bead/ziparchive.py:ZipArchive.calculate_content_id')],['content_id'])
p('C06','A failed save leaves no trace and never replaces an archive',
 'If saving fails (a source file can not be read, is neither file nor directory or vanishes, writing to the box fails, or the target archive name is already taken) an error is reported, no new file remains in the box, every file already there keeps its bytes, and the workspace is unchanged (apart from an error report in the current directory); this also holds when the user interrupts it. A save that reports success never overwrites an existing archive.',
 ['fault_sequences','inputs'],'every point of the save at which a file operation can fail, for every workspace within the bounds and every prior box content',
 'Tests exercise at most one failing file; which step fails and what already exists decides whether debris or damage is left.',
 [WS,BOX],[('pack cleanup','bead/workspace.py:Workspace.pack'),('zipfilename must not exist','bead/workspace.py:Workspace.pack'),('Box.store','bead/box.py:Box.store')],['bead save','box directory'])
p('C07','Foreign or damaged files in a box never break or change searches',
 'A box directory may contain files that are not valid beads (not zip files, truncated archives, archives without manifest, archives without or with malformed metadata, file names no bead could have, subdirectories). Every search in that box, by any condition, with or without an index, returns exactly what it would return without those files and never fails because of them.',
 ['inputs'],'every kind of invalid file, every name for it, next to any set of valid beads, and every search',
 'Tests put one invalid zip in a box; crashes depend on which key is missing or malformed and on the file name.',
 [RAW,ZA,IDX],[('InvalidArchive is skipped','bead/box_rawfs.py:RawFilesystemResolver._archives_from'),('index ignores bad archives','bead/box_index.py:BoxIndex.index_archive_file')],['search results'])
p('C08','A bead saved under an accepted name is found under exactly that name',
 'If creating and saving a workspace with some name succeeds, then looking the bead up in that box by that name finds it, reports that same name, and a lookup by any different name does not return it. A name that can not be used this way is refused when the workspace is created or saved, before anything is written to the box.',
 ['inputs'],'every name a directory can have, including glob and regex metacharacters, underscores, dots, digits, timestamp look-alikes and unicode, with or without an index',
 'Tests use alphanumeric names; the name travels through a file name, a glob pattern, a regular expression and SQL, each with its own special characters.',
 [BOX,RAW,ZA,'bead/meta.py',CW],[('file name construction','bead/box.py:Box.store'),('bead_name_from_file_path','bead/ziparchive.py:bead_name_from_file_path'),('name glob','bead/box_rawfs.py:RawFilesystemResolver._glob_bead_files')],['bead new','bead save','bead edit','bead input add'])
p('C09','Box searches return exactly the matching beads, indexed or not',
 'A search by name, kind, content id and time bounds returns exactly the beads of the box that satisfy all given conditions, each with its stored name, kind, content id, freeze time and inputs. Times are compared as instants, exactly to the microsecond and across time zones. A box whose archives are distinct beads frozen in the past answers the same with a fresh index as without one.',
 ['inputs','configurations'],'every set of beads within the bounds, every combination of conditions, freeze times at microsecond distance and in different time zones',
 'Tests compare well separated times in one time zone; off-by-one bounds, rounding and zone handling show only at adjacent instants.',
 [BOX,RAW,IDX],[('compile_conditions','bead/box_rawfs.py:compile_conditions'),('build_where_clause/query_beads','bead/box_index.py:query_beads'),('timestamp_to_unix_utc_microseconds','bead/box_index.py:timestamp_to_unix_utc_microseconds')],['BoxSearch.all'])
p('C10','Picking newest, oldest, n-th or unique results respects freeze times',
 'Over any set of boxes newest/oldest return a matching bead with the greatest/smallest freeze time, the n-th newer/older pick (n from 0) is the n-th in ascending/descending freeze time order, all returns every match of every box exactly once, unique keeps exactly one bead per content id, and first returns some match. When nothing matches or n is out of range a lookup error is raised.',
 ['inputs','configurations'],'every distribution of matching beads over boxes, equal or distinct freeze times in any zone, every n in range and beyond',
 'Tests have one box and mostly sorted insertion order; ordering mistakes need out of order, multi-box or tied times.',
 [BOX],[('BaseSearch selectors','bead/box.py:BaseSearch'),('MultiBoxSearch','bead/box.py:MultiBoxSearch')],['search(...).newest() etc.'])
p('C11','Resolving a bead yields that very bead or an error',
 'Resolving a search result gives an archive having the same name, content id and box as the result, or raises; it never gives a different bead. This holds when several boxes share beads, when several beads share a name, and when archive files are renamed, deleted or changed places after the search or behind an index.',
 ['inputs','histories'],'every set of boxes and beads within the bounds and every change of the files between search and resolve',
 'Tests resolve right after a search in one box; stale caches and index rows need a change in between.',
 [BOX,RAW,IDX],[('_validate_archive_matches_bead','bead/box.py:Box._validate_archive_matches_bead'),('get_file_path','bead/box_rawfs.py:RawFilesystemResolver.get_file_path'),('find_file_path','bead/box_index.py:find_file_path')],['box.resolve'])
p('C12','The box index reflects the archives of the box',
 'After creating or updating an index, after rebuilding it, and after each later save into an indexed box, searching the box gives exactly the valid beads whose archive files are present, with their metadata and inputs; this holds wherever the box directory is and whatever characters its path contains. Saving again or re-indexing never duplicates beads or inputs, and archives that were copied in, renamed or deleted by other means are accounted for at the next index update.',
 ['histories','configurations'],'every history of saves, file deletions, file additions, index updates and rebuilds within the bounds, and every box path',
 'Tests index once in a plain temporary directory; missing and duplicated rows need particular histories, and path characters meet URI syntax.',
 [IDX,BOX,CB],[('rebuild','bead/box_index.py:BoxIndex.rebuild'),('sync','bead/box_index.py:BoxIndex.sync'),('index_archive_file','bead/box_index.py:BoxIndex.index_archive_file')],['bead box index','bead box reindex','search results'])
p('C13','Freeze timestamps parse strictly and denote exact instants',
 'A freeze timestamp is accepted exactly when it is a full basic ISO timestamp with microseconds and numeric zone denoting a real calendar date and time, and then denotes precisely that instant, so comparing two of them compares instants regardless of zone. Everything else, including trailing characters, is refused with a value error.',
 ['inputs'],'every string of up to the timestamp length plus one',
 'Tests parse a handful of strings; each digit position, sign and boundary matters.',
 [TS],[('_compile_parser','bead/tech/timestamp.py:_compile_parser'),('time_from_timestamp','bead/tech/timestamp.py:time_from_timestamp')],['time_from_timestamp'])
p('C14','A generated timestamp denotes the current instant',
 'The timestamp given to a saved bead, parsed back, equals the current instant to the microsecond in every local time zone (offsets of whole minutes), including the hour repeated at the end of daylight saving time; so beads saved later sort later, and a just saved bead is never considered to be from the future.',
 ['inputs','configurations'],'every instant, and local zones with fixed offset or with daylight saving transitions',
 'Tests freeze one instant in the test machine\'s zone; the fold hour occurs once a year.',
 [TS,ZA],[('timestamp','bead/tech/timestamp.py:timestamp'),('LocalTimezone','bead/tech/timestamp.py:LocalTimezone'),('_bead_creation_time_is_in_the_past','bead/ziparchive.py:ZipArchive._bead_creation_time_is_in_the_past')],['timestamp()'])
p('C15','User given times are read as documented or refused',
 'A time option is read either as one of the supported ISO-8601 forms (missing parts default to the start of the period, missing zone means UTC) or as a sum of signed amounts of w, d, H, M, S relative to now; the result is exactly that instant. Any other text of ASCII characters is refused with a value error and nothing else.',
 ['inputs'],'every string within the length bound and every current instant',
 'Tests list some strings; overlaps of forms, signs and multi-part deltas are not covered.',
 [TS],[('parse_iso8601','bead/tech/timestamp.py:parse_iso8601'),('parse_timedelta','bead/tech/timestamp.py:parse_timedelta'),('time_from_user','bead/tech/timestamp.py:time_from_user')],['time_from_user','--time option'])
p('C16','Input commands keep input definitions and input data consistent',
 'After any sequence of input add, load, unload, delete and update commands, the declared inputs are exactly those added and not deleted, each refers to the bead it was last successfully set to, an input is loaded exactly when its last successful command loaded it, and its data is then exactly the data of the referenced bead. Other inputs, code and output are never touched, the input directory ends read-only, and every later command still works.',
 ['histories'],'every command sequence within the bounds, for any boxes and input names, including names that do not exist or are not allowed',
 'Tests run short fixed scenarios; leftovers of one command breaking another need particular sequences.',
 [WS,CI],[('load/unload/delete_input','bead/workspace.py:Workspace'),('CmdAdd/CmdLoad/CmdUnload/CmdDelete','bead_cli/input.py')],['workspace directory','bead input ...'])
p('C17','Input update selects the right version',
 'Updating an input without a bead reference selects, among the beads of the same kind in all boxes, the newest not after the given time (default: newest of all), with next the oldest strictly newer than the current version, with previous the newest strictly older one. Updating all inputs applies the first rule to every input independently, and when there is no such bead, or it can not be used, that input stays as it was and the others are still updated. (Versions of a kind have distinct freeze times.)',
 ['inputs','histories','configurations'],'every version history over every set of boxes, every current version, every option combination and time',
 'Tests step through five equally spaced versions of one bead in one box.',
 [CI,BOX],[('update_one_input','bead_cli/input.py:CmdUpdate.update_one_input'),('update_all_inputs','bead_cli/input.py:CmdUpdate.update_all_inputs')],['bead input update'])
p('C18','Deleting never reaches outside the directory to be deleted',
 'Discarding a workspace and unloading, updating or deleting an input removes exactly that workspace or that input\'s data directory; nothing else is removed or altered (content or permissions), even when the tree contains symbolic links or read-only files, and discarding without force never deletes a directory that is not a valid workspace.',
 ['inputs'],'every tree with files, read-only entries and symbolic links to files or directories outside, and every current directory',
 'Tests discard plain trees; following a link or misjudging the directory shows only in unusual trees.',
 [FS,WS,CW],[('rmtree/all_subpaths','bead/tech/fs.py:rmtree'),('unload','bead/workspace.py:Workspace.unload'),('CmdDiscard','bead_cli/workspace.py:CmdDiscard')],['file system'])
p('C19','The set of known boxes is remembered exactly',
 'After any sequence of box add and box forget commands, the tool knows exactly the boxes added and not forgotten since, in order, each with its name and directory, across program runs. Adding a box whose name or directory is already in use, or whose directory does not exist, is refused and changes nothing.',
 ['histories'],'every command sequence within the bounds over names and directories (including links and relative paths to the same directory)',
 'Tests add one or two boxes; aliasing directories and forget-then-add orders are not covered.',
 [ENV,CB],[('add_box uniqueness','bead_cli/environment.py:Environment.add_box'),('save/load','bead_cli/environment.py:Environment.save')],['bead box add','bead box forget','bead box list'])
p('C20','The cache of open archives is transparent and bounded',
 'Opening archives through the cache always yields an open handle on the archive with the requested file name, for any sequence of opens and closes, including failing opens; (archives are not replaced while they are open) at most the configured number of archives is open at any time, evicted ones are closed, and the one evicted is the least recently used.',
 ['histories'],'every sequence of operations within the bounds over any file names, existing or not, and cache sizes 1 to 3',
 'The cache is only exercised through tests that open fewer archives than its size.',
 ['bead/zipopener.py'],[('OpenZipLRUCache','bead/zipopener.py:OpenZipLRUCache')],['zipopener.open'])
p('C21','The web of beads links each bead to exactly its declared inputs',
 'For any collection of beads, possibly holding the same bead several times, the web has every distinct bead once, and exactly one link per declared input of each bead, from the bead with the input\'s name and content id; when that bead is not in the collection a single phantom stands for it. Removing deleted inputs or keeping heads never adds links or beads that were not there.',
 ['inputs'],'every bead collection within the bounds: shared inputs, missing inputs, duplicates from several boxes',
 'Tests build webs with a sketching helper that never has duplicates over boxes.',
 [SK,GR,DU],[('Sketch.from_beads','bead_cli/web/sketch.py:Sketch.from_beads'),('generate_input_edges','bead_cli/web/graph.py:generate_input_edges'),('drop_deleted_inputs','bead_cli/web/sketch.py:drop_deleted_inputs')],['Sketch.beads','Sketch.edges','bead web'])
p('C22','Web filtering keeps exactly what lies between sources and sinks',
 'Filtering a web by sources keeps exactly the clusters that are one of the named sources or reachable from one through input links (links between any versions count), by sinks exactly those leading to one of the named sinks, and by both those satisfying first the one and then the other; all beads of kept clusters and exactly the links between them remain.',
 ['inputs'],'every web within the bounds, every set of source and sink names, existing or not',
 'Tests cover a few shapes, none with isolated clusters or version-crossing links in both directions.',
 [SK,GR,WC],[('set_sources/set_sinks','bead_cli/web/sketch.py:set_sources'),('closure','bead_cli/web/graph.py:closure')],['bead web / .. /'])
p('C23','Freshness colours tell exactly which heads are up to date',
 'After colouring, phantoms stay phantoms, every non-newest version of a cluster is superseded, and the newest version of a cluster (when not a phantom) is up to date exactly when each of its inputs is the up-to-date newest bead of its cluster, recursively; otherwise it is out of date. The result does not depend on the order of beads or links.',
 ['inputs'],'every acyclic web within the bounds with distinct freeze times per cluster',
 'Tests cover selected chains; the definition is recursive over all shapes and input orders.',
 [SK,CL,GR],[('color_beads','bead_cli/web/sketch.py:color_beads'),('reset_freshness','bead_cli/web/cluster.py:Cluster.reset_freshness'),('toposort','bead_cli/web/graph.py:toposort')],['bead web color'])
p('C24','Saving and loading a web is lossless',
 'Writing a web made of a collection of beads to a file and reading it back gives beads with the same names, content ids, kinds, freeze times, inputs, freshness and box names, in the same order, and the same links.',
 ['inputs'],'every web within the bounds and arbitrary text in every attribute',
 'Tests compare one or two fixed webs.',
 [IO,SK],[('encoder/reconstruct','bead_cli/web/io.py')],['bead web save/load'])
p('C25','The DOT output is well-formed and draws each bead once',
 'For any web the produced DOT text is syntactically well-formed whatever characters names and labels contain (but control characters, which XML does not allow), distinct clusters get distinct node ids, each bead is one row with its freshness colour, and each link connects the output of its source bead to the input of its destination bead.',
 ['inputs'],'all cluster and input names within the length bound over an alphabet with quotes, backslashes, angle brackets, ampersands and newlines',
 'Tests run dot on plain names only.',
 [GV,SK],[('node_cluster escaping','bead_cli/web/graphviz.py:node_cluster'),('html.escape of labels','bead_cli/web/graphviz.py:dot_cluster_as_fragments')],['bead web dot'])
p('C26','Hashing a file and hashing its bytes agree, in any chunking',
 'The secure hash of a file equals the secure hash of its bytes, however the reads are split into blocks, and it commits to the content and its length: two different contents never feed the same data to the hash function (it is the SHA-512 of the content between its decimal length and a colon, and a semicolon and its length). A file whose size differs from what was announced is not hashed silently.',
 ['inputs','schedules'],'every content up to the bound and every split of it into read blocks',
 'Tests hash one short string read in one block; files larger than a block are never tested.',
 [SH],[('file','bead/tech/securehash.py:file'),('bytes','bead/tech/securehash.py:bytes')],['securehash.file','securehash.bytes'])
p('C27','Commands act on the nearest enclosing workspace',
 'Without an explicit workspace, a command run anywhere inside a workspace acts on the innermost enclosing valid workspace; outside of any it refuses (or warns) and changes nothing.',
 ['configurations'],'every nesting of workspaces, partially valid workspaces and current directories within the depth bound',
 'Tests run commands at the workspace root or one level below.',
 [WS,CC],[('for_current_working_directory','bead/workspace.py:Workspace.for_current_working_directory'),('is_valid','bead/workspace.py:Workspace.is_valid')],['CLI commands'])
p('C28','New and edit never overwrite an existing path',
 'Creating a workspace or editing a bead into a path that already exists, be it a file, a directory or a link to one of these, fails with an error and leaves everything there unchanged; a new workspace with a name that is not portable is refused without creating anything.',
 ['inputs','configurations'],'every existing content at the target and every name within the bound',
 'Tests check one existing directory.',
 [CW],[('assert_may_be_valid_name','bead_cli/workspace.py:assert_may_be_valid_name'),('exists checks','bead_cli/workspace.py:CmdNew.run')],['bead new','bead edit'])
p('C29','Damaged or wrong beads are never unpacked or loaded',
 'When the bead that would be edited, added, loaded or updated to fails validation, the command reports it and leaves the workspace as it was: no input definition is added or changed, no data is replaced or removed, and no workspace directory is created. Loading an input only ever uses a bead with the recorded content id.',
 ['inputs','histories'],'every kind of damage, every command that uses a bead, every previous state of the input',
 'Tests cover one hacked bead with two commands.',
 [CI,CW,CC],[('verify_with_feedback','bead_cli/common.py:verify_with_feedback'),('_check_load_with_feedback','bead_cli/input.py:_check_load_with_feedback'),('_load','bead_cli/input.py:_load')],['bead input ...','bead edit'])
p('C30','An interrupted load is never mistaken for a loaded input',
 'If loading or updating an input fails or the process dies at any point, then afterwards either the input is not loaded or its data directory holds the complete data of the bead recorded for it; running the load command again then completes it.',
 ['crash_points','fault_sequences'],'every point between two file system operations of a load or update, and every failing file operation',
 'No test interrupts a load; partial state exists only between two operations.',
 [WS,CI,ZA],[('Workspace.load','bead/workspace.py:Workspace.load'),('is_loaded','bead/workspace.py:Workspace.is_loaded')],['workspace directory','bead input load'])
p('C31','A crash never loses the box registry or the workspace metadata',
 'If the process dies at any point while boxes or inputs are added, changed or removed, the stored configuration and workspace metadata are afterwards readable and equal to either the state before or the state after the change.',
 ['crash_points','histories'],'every point between two file system operations of every command that changes the configuration or the workspace metadata',
 'No test kills the process in the middle of a write.',
 [ENV,PER,WS],[('Environment.save','bead_cli/environment.py:Environment.save'),('file_dump','bead/tech/persistence.py:file_dump')],['env.json','.bead-meta/bead'])
p('C32','Ordering beads for evaluation respects their input links',
 'The evaluation order of any acyclic web lists every bead once and every bead after all of its inputs, a web with a cycle is reported as an error and never loops, and the head of a cluster is its newest real version, or a phantom only if all its versions are phantoms.',
 ['inputs'],'every graph within the bounds, acyclic or not, and every iteration order of the underlying sets',
 'Tests use fixed acyclic graphs and whatever set order the run happens to have.',
 [GR,CL],[('toposort','bead_cli/web/graph.py:toposort'),('Cluster.add','bead_cli/web/cluster.py:Cluster.add')],['toposort','Cluster.head'])
p('C33','A failing archive or box never hides results of other boxes',
 'Loading an input by content id, showing status and updating an input look into every known box: a match in any reachable box is found whatever the order of the boxes and whatever the other boxes hold, and a box whose directory is missing or empty counts as having no beads. When loading, a damaged copy or an index that is out of date does not hide a sound copy elsewhere.',
 ['configurations','inputs'],'every assignment of beads to up to three boxes, with missing directories and empty boxes, in every order',
 'Tests have a single box.',
 [CI,CW,BOX],[('_load loop over boxes','bead_cli/input.py:_load'),('MultiBoxSearch','bead/box.py:MultiBoxSearch'),('print_inputs','bead_cli/workspace.py:print_inputs')],['bead input load','bead status','bead input update'])
p('C34','Commands at the same time keep a box and its index consistent',
 'When two commands save into, index or search the same box at the same time, then after both have finished every saved bead that is in the box, and no other, is found, once, with all its metadata and its own archive; no archive is replaced by another save. What a search, an edit or an input command finds meanwhile is a complete bead of the box; while no index is being made it finds all the beads that were there from the start.',
 ['schedules'],'every access of a command to the box (opening, closing, listing, removing, database statements) as the point where another whole command runs: save, index, reindex, search, removal of an archive with index update; with and without an index at the start',
 'Tests are single process; the windows are between two system calls.',
 [IDX,BOX,WS],[('index_archive_file','bead/box_index.py:BoxIndex.index_archive_file'),('query_beads','bead/box_index.py:query_beads'),('Box.store','bead/box.py:Box.store'),('pack','bead/workspace.py:Workspace.pack')],['search results','box directory','bead save','bead edit','bead input'])
p('C35','Every new computation gets a unique kind',
 'No two workspaces created with new, ever and anywhere, share a kind.',
 ['histories'],'all histories of workspace creations on all machines',
 'Uniqueness is over all runs ever.',
 ['bead/tech/identifier.py',CW],[('uuid','bead/tech/identifier.py:uuid')],['bead new'])
p('C36','A crash while saving never damages the box',
 'If the process dies at any point of a save, then every archive already in the box keeps its bytes, the workspace is unchanged, at most the new archive was added, and every bead a search then finds is complete and passes validation. Saving again works.',
 ['crash_points'],'every point between two file system operations of a save, any contents and names of files, boxes with and without an index',
 'No test kills a save.',
 [WS,BOX,IDX],[('pack','bead/workspace.py:Workspace.pack'),('Box.store','bead/box.py:Box.store'),('index_archive_file','bead/box_index.py:BoxIndex.index_archive_file')],['box directory','search results','bead save'])
p('C37','A crash or failure never leaves a half-made workspace passing for whole',
 'If the process dies, is interrupted, or a file operation fails at any point of creating or editing a workspace, then what is left is either a valid workspace with the kind, the inputs and all code files of the bead, or it is not taken for a workspace by any command, can be discarded by force, and the command can be repeated. Nothing else is changed.',
 ['crash_points','fault_sequences'],'every point between two file system operations of new and edit, with and without review, any contents and names of files',
 'No test interrupts new or edit.',
 [WS,CW,ZA,'bead/bead.py'],[('Workspace.create','bead/workspace.py:Workspace.create'),('unpack_to','bead/bead.py:Archive.unpack_to'),('is_valid','bead/workspace.py:Workspace.is_valid')],['bead new','bead edit','workspace directory'])
p('C38','Status tells exactly what the workspace and the boxes hold',
 'Status names the workspace and reports each declared input exactly once, in order of names: whether it is loaded, the freeze time of its bead, the name of a bead with the recorded content id or that it is missing, and for each box, in order, the newest bead of the input\'s kind not after the input\'s time, marked as exact or as a match of the kind only. It changes nothing. (Versions of a kind have distinct freeze times.)',
 ['configurations'],'every history of versions over two boxes with and without index, inputs that refer to any of them or to none, loaded or not',
 'Tests look for a few strings in the output of one or two situations.',
 [CW,BOX],[('print_inputs','bead_cli/workspace.py:print_inputs'),('CmdStatus','bead_cli/workspace.py:CmdStatus')],['bead status'])
p('C39','Web sub-commands run in order, each on the result of the one before',
 'The sub-commands of web run from left to right, the first on all beads of all boxes (unless it is load), every other on the result of the one before; save, dot, png, svg, view and color pass the beads and links they were given on. A command line that can not be understood is refused before anything runs or is written.',
 ['inputs'],'every sequence of sub-commands within the bound on every web within the bound, and every wrong word in every place',
 'Tests run a few fixed pipelines.',
 [WC,IO],[('parse_commands','bead_cli/web/commands.py:parse_commands'),('SketchProcessor','bead_cli/web/commands.py:SketchProcessor')],['bead web'])
p('C40','Indexing acts on exactly the boxes asked for',
 'Indexing and re-indexing a box given by name or by directory, or all boxes, brings the index of exactly those boxes in line with their archives; a box that can not be indexed does not keep the others from being indexed. Archives, the other boxes and the set of known boxes are unchanged, and a request that names no box is refused.',
 ['configurations','inputs'],'every combination of states of the known boxes (without, with, with outdated index, empty, with junk, missing) and every way of choosing',
 'Tests index one healthy box.',
 [CB,BOX,IDX],[('CmdIndex/CmdReindex','bead_cli/box.py:CmdIndex'),('sync/rebuild','bead/box_index.py:BoxIndex')],['bead box index','bead box reindex'])
p('C41','Save stores in exactly the requested box',
 'Saving stores the bead in the box asked for, by default in the only box there is; with several boxes and none asked for, or an unknown one, it is refused and nothing is written. Without any box the first one is created in the home directory and remembered. Other boxes are unchanged.',
 ['configurations','inputs'],'every set of boxes with any names, any name asked for, every state of the place of the first box',
 'Tests have one or two boxes with fixed names.',
 [CW,ENV],[('CmdSave','bead_cli/workspace.py:CmdSave')],['bead save'])
p('C42','A bead reference denotes that file or the newest bead of that name',
 'A bead reference denotes the bead in the file at that path, or else the newest bead of that name not after the given time over all boxes. One that denotes nothing, or a file that is no bead, is refused with an error, and nothing is changed.',
 ['inputs','configurations'],'every distribution of versions over boxes and instants, every time limit, references by name and by path, files and directories of the same name',
 'Tests have one box and one or two versions.',
 [CC,CI,CW],[('resolve_bead','bead_cli/common.py:resolve_bead'),('CmdEdit','bead_cli/workspace.py:CmdEdit'),('CmdAdd','bead_cli/input.py:CmdAdd')],['bead edit','bead input add','bead input update'])
p('C43','Files changing during a save never make the saved bead invalid',
 'If files of a workspace are changed, replaced, added, removed or renamed by others while it is being saved, then either the save fails and leaves nothing in the box, or the saved bead passes validation, is found, and stores every file that stayed there, and files of the workspace only, each with a content which that file had at some time during the save.',
 ['schedules','inputs'],'every access of the save to the workspace as the point of the change, eleven kinds of changes, any contents',
 'No test changes a file during a save.',
 [WS,SH,BOX],[('_ZipCreator.add_file','bead/workspace.py:_ZipCreator.add_file'),('pack','bead/workspace.py:Workspace.pack')],['bead save','box directory','validation'])
p('C44','Indexing reports success only when the index is complete',
 'box index and box reindex report a box or directory as done only if its index then exists, can be read and lists exactly the sound archives there, with all their metadata; otherwise they report it as failed, and do not count it among the boxes indexed. An obstacle at one box keeps no other box from being indexed, and when it is gone running the command again completes the index.',
 ['faults','inputs'],'every statement from which on the database can not be written (full), or the one that fails (locked), unwritable or unreadable boxes and index files, index files that are no databases; any archives, outdated and incomplete indexes; one box, a directory, all boxes',
 'Tests have no failing index operation.',
 [IDX,'bead_cli/box.py'],[('sync','bead/box_index.py:BoxIndex.sync'),('rebuild','bead/box_index.py:BoxIndex.rebuild'),('reindex','bead_cli/box.py:reindex'),('index_all','bead_cli/box.py:index_all')],['bead box index','bead box reindex','index content'])
p('C45','A command that reports success has done all it was asked to do',
 'When an operation on the file system fails (or the user interrupts) while a command runs, the command either reports the failure (exit status, error or warning), or all it was asked for is done: the new workspace, the workspace for editing, the saved archive, the loaded, updated, unloaded or deleted inputs, the registered or forgotten box, the removed workspace, the written web file is exactly what it would be without the failure.',
 ['faults','inputs'],'every change of the file system made by new, edit, save, discard, nuke, input add/delete/load/unload/update, box add/forget, web save/dot failing with lack of space or permission, input/output error or interrupt, and files that can not be read; any file names and contents, metadata, ids',
 'No test lets an operation fail.',
 [WS,SH,'bead_cli/main.py','bead_cli/input.py','bead_cli/workspace.py','bead_cli/environment.py'],[('main','bead_cli/main.py:main'),('rmtree','bead/tech/fs.py:rmtree'),('_check_load_with_feedback','bead_cli/input.py:_check_load_with_feedback'),('Environment.save','bead_cli/environment.py:Environment.save')],['exit status','output of the command','file system afterwards'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80, d['id']
        f.write(json.dumps(d)+'\n')
print(len(P))

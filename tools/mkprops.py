#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/mkprops.py > properties.jsonl"""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Package comparison is one consistent order by version, then revision',
     'Any two packages or formulas of the same name compare by version and, when the versions are the same, by revision (1 < 2 < 10): at most one of <, ==, > holds, > mirrors <, <= and >= add equality, != negates ==, and < is transitive. Packages of different names, and values that are not packages, are neither equal nor ordered. A specification string "name", "name==version" or "name==version:revision" compares like the package it names, an omitted version or revision matching every one for equality and ordering none.',
     ['inputs'], 'all triples of (name, version, revision), with revisions given as numbers or text, against package-like objects, package records and specification strings',
     'The tests compare two fixed packages foo 1.0 and foo 2.0; antisymmetry, transitivity and two-digit versions and revisions are about all pairs and triples.',
     ['ipkg/mixins.py', 'ipkg/utils.py', 'ipkg/packages.py', 'ipkg/build.py'],
     [('NameVersionRevisionComparable', 'ipkg/mixins.py'), ('parse_package_spec', 'ipkg/utils.py')],
     ['comparison operators of MetaPackage, PackageFile and Formula objects'])

prop('C02', 'Version sorting is a correct ordering and the most recent is its maximum',
     'Sorting versions returns exactly the given versions in non-decreasing order (non-increasing when reversed), equal ones in their original relative order, using the given key parser. Numeric components (of up to eight digits) compare as numbers, pre-releases (dev < a < b < rc) come before their release, patch levels after it, and trailing zero components are insignificant. The most recent version is the greatest under the same key parser, and among packages the greatest version is selected.',
     ['inputs'], 'all lists of version strings (1 to 20 components and suffixes), any key parser, any permutation of them',
     'One list of four two-component versions is sorted and one maximum taken; multi-digit, pre-release and patch components, duplicates, custom parsers and permutations are never tried.',
     ['ipkg/versions.py', 'ipkg/dependencies.py'],
     [('sorted, most_recent, compare, extract', 'ipkg/versions.py'), ('select_most_recent_version', 'ipkg/dependencies.py')],
     ['return values of the version helpers'])

prop('C03', 'A requirement accepts exactly the versions all of its selectors accept',
     'For every requirement that parses, a version of the named package is accepted if and only if it satisfies each comma-separated selector (==, !=, >, >=, <, <=) as written, whatever their order, spacing and redundancy, and the package name and platform match. A list of selectors that some version can meet is never rejected; one that is rejected is rejected with an ipkg error.',
     ['inputs'], 'all selector lists of up to 8 selectors over all operators, crossed with all versions near their bounds, for packages given as records or objects with or without a platform',
     'The tests fix a handful of two-selector lists and one or two versions each; != is only matched by a regular expression and never evaluated.',
     ['ipkg/requirements.py', 'ipkg/platforms.py'],
     [('remove_useless_version_selectors', 'ipkg/requirements.py'), ('Requirement.satisfied_by', 'ipkg/requirements.py')],
     ['whether a requirement accepts a package record, object or bare version'])

prop('C04', 'Requirement text parses or is rejected cleanly, and prints back to itself',
     'Any text given as a requirement is either parsed or rejected with an ipkg error, in time that does not explode with its length. The text form of a parsed requirement parses to an equal requirement that accepts the same packages and has the same name, extras and platform. Equality is an equivalence independent of spacing, == and != are opposites, and equal requirements have equal hashes.',
     ['inputs'], 'arbitrary strings up to 200 characters, mutations of valid requirements, and all well-formed requirements with platforms, extras and selectors',
     'One malformed string and a few well-formed ones are tested; printing is never parsed back, and nothing bounds parsing time.',
     ['ipkg/requirements.py', 'ipkg/platforms.py'],
     [('RE_REQUIREMENT, parse', 'ipkg/requirements.py'), ('Requirement.__str__, __eq__, __hash__', 'ipkg/requirements.py')],
     ['constructing, printing, comparing and hashing requirements'])

prop('C05', 'Merging requirements is exactly their intersection',
     'Merging two or more requirements on the same package gives a requirement that accepts a package if and only if every merged requirement accepts it, in whatever order they are merged, with the union of their extras. Merging requirements on different packages or on incompatible platforms, or requirements no version can meet together, is refused with an ipkg error. The merged requirements themselves are unchanged.',
     ['inputs', 'histories'], 'all sequences of 2 to 5 requirements (platform, extras, selectors with numeric, pre-release, patch-level and zero versions) merged in every order',
     'One merge of two single-digit ranges is tested; version forms that do not survive being printed and re-parsed during a merge are never used.',
     ['ipkg/requirements.py', 'ipkg/dependencies.py'],
     [('Requirement.__add__', 'ipkg/requirements.py'), ('SolverRequirement.merge', 'ipkg/dependencies.py')],
     ['the merged requirement accepts / rejects packages'])

prop('C06', 'Platform matching is symmetric and honours wildcards component by component',
     'Two platforms match if and only if in each of operating system, release and architecture they are the same or either one is "any"; matching is reflexive, symmetric, the same whether a side is given as text or as a platform, and != is its negation. Parsing is case-insensitive, ignores surrounding space, accepts exactly "any" and three-part names, prints back to an equal platform, and refuses anything else with an ipkg error (comparing with such text or with a non-platform is simply false). The platform of the running machine always prints to a name that parses back to it and is usable in a file name, whatever the distribution reports.',
     ['inputs', 'configurations'], 'all pairs and triples of platforms with 0 to 3 wildcards, arbitrary strings, and all distribution names, releases and machine names the operating system may report',
     'Tests compare one platform with itself and with "any"; symmetry, mixed wildcards and odd distribution names (spaces, slashes, dashes) are not covered.',
     ['ipkg/platforms.py', 'ipkg/packages.py'],
     [('Platform.__eq__, parse, current', 'ipkg/platforms.py'), ('make_filename', 'ipkg/packages.py')],
     ['platform comparison, parsing, printing, detection'])

prop('C07', 'Package specifications round-trip',
     'The specification built from any package (object or record, with or without version and revision) parses back to exactly that name, version and revision, and building a specification again from the parsed parts gives the same text. Text that is not a specification, and values that are not packages, are refused with an ipkg error naming them.',
     ['inputs'], 'all names, versions and revisions over their character sets, all presence combinations, and arbitrary strings',
     'Four fixed examples are built and the parser is never run on the result.',
     ['ipkg/utils.py', 'ipkg/regex.py'],
     [('make_package_spec, parse_package_spec', 'ipkg/utils.py'), ('PACKAGE_SPEC', 'ipkg/regex.py')],
     ['return values'])

prop('C08', 'A solved dependency list is complete, consistent and correctly ordered',
     'Whenever solving for a target returns a list, the target is last, every package comes after everything it depends on, and each dependency requirement of every listed package is satisfied by a listed package (or, when an environment is given, by a package installed there). The list contains each package name once, contains nothing the target does not transitively need, and merges the requirements of all its members: no listed package violates a requirement of another.',
     ['inputs', 'configurations'], 'all dependency graphs of up to about 10 names with several versions each, requirements with version selectors, one or more repositories, with or without an environment of installed packages, and every internal iteration order',
     'Tests solve two fixed graphs and compare with one fixed order; one of them depends on identity-hash order and flips from run to run.',
     ['ipkg/dependencies.py', 'ipkg/requirements.py', 'ipkg/repositories.py'],
     [('Solver.from_obj, find_best_dependencies, solve', 'ipkg/dependencies.py'), ('SolverRequirement', 'ipkg/dependencies.py')],
     ['list returned by solving, with installed packages kept or ignored'])

prop('C09', 'Solving finds a solution when versions do not conflict and reports loops',
     'When, for each package name, some available version meets every requirement that any candidate makes on it, and the chosen packages form no cycle, solving succeeds and picks for each name a version at least as recent as the most recent one meeting all those requirements. When the dependencies needed by the target form a cycle, or a needed package is missing or no version of it is acceptable, solving terminates with an ipkg error. A cycle or missing package that only unneeded packages have does not prevent solving.',
     ['inputs', 'configurations'], 'dependency graphs with several versions per name including versions that are not selected, cycles of every length, missing packages, diamonds, environments that already provide some packages together with their own dependencies',
     'Two solvable graphs and one three-node loop are tested; unselected versions with dependencies of their own and environments whose packages have dependencies are not.',
     ['ipkg/dependencies.py'],
     [('Solver.solve', 'ipkg/dependencies.py'), ('DependencyLoop', 'ipkg/dependencies.py')],
     ['result or error of solving'])

prop('C10', 'An environment contains exactly the files of its installed packages',
     'After any sequence of installs (from a file or a repository), upgrades, downgrades, reinstalls, uninstalls and reopenings, the environment lists exactly the packages last installed with their metadata, and its files, links and permissions are exactly those of the listed packages plus whatever was there before. Uninstalling removes every file, link and emptied directory of the package and nothing else; the directories of the environment itself stay. Installing the installed version again changes nothing, and uninstalling a package that is not installed, or installing something that is not a package, is refused and changes nothing.',
     ['histories', 'inputs'], 'all operation histories over a pool of packages with several versions, nested directories, empty, large, binary, hidden, executable and read-only files, symbolic and hard links, in environments that also hold unrelated files, reopened at any point',
     'One package with one README is installed once and uninstalled once; upgrades, links, shared directories and reopening are never exercised.',
     ['ipkg/environments.py', 'ipkg/packages.py', 'ipkg/utils.py'],
     [('Environment.install, uninstall', 'ipkg/environments.py'), ('PackageFile.extract', 'ipkg/packages.py')],
     ['the environment directory tree and its package list'],
     [('meta[packages]', 'installed package records', 'PREFIX/.ipkg.meta')])

prop('C11', 'Installing a package brings in its dependencies and leaves satisfied ones alone',
     'After a successful install every dependency requirement of the installed package and of each package installed with it is satisfied by an installed package, using the most recent acceptable version in the repository. An installed package that already satisfies a requirement is not reinstalled, replaced or looked up. If a dependency cannot be found, or dependencies form a cycle, the install ends with an ipkg error, the package is not listed as installed, and everything previously installed remains.',
     ['inputs', 'histories'], 'all package repositories with dependency requirements (bare names, version selectors, platform prefixes), diamonds, chains and cycles, and any set of previously installed packages',
     'The only dependency install test is commented out; none has a version selector, a cycle or an installed dependency.',
     ['ipkg/environments.py', 'ipkg/repositories.py', 'ipkg/requirements.py'],
     [('Environment.install', 'ipkg/environments.py'), ('BaseRepository.__getitem__', 'ipkg/repositories.py')],
     ['installed package list and files after install'])

prop('C12', 'Relocation rewrites the build prefix where it must and nowhere else',
     'When a package built for another prefix is installed, each script in bin, sbin or lib* has the build prefix replaced in its interpreter line, each pkg-config file in its first prefix= line and each libtool file in its first libdir= line. Every other byte of those files, all other files, all links, and every file mode are exactly as packaged, whatever the file contents; a package installed at its own build prefix is not altered at all.',
     ['inputs'], 'all file contents (scripts, .pc and .la files with and without the expected line, empty, without final newline, CRLF, NUL and non-ASCII bytes), modes, locations, and pairs of prefixes',
     'No test installs a script, .pc or .la file, so no rewriting code is ever run.',
     ['ipkg/prefix_rewriters.py', 'ipkg/environments.py', 'ipkg/regex.py'],
     [('rewrite_prefix and its per-type rewriters', 'ipkg/prefix_rewriters.py'), ('Environment.install', 'ipkg/environments.py')],
     ['file bytes and modes in the environment after install'])

prop('C13', 'An interrupted or failed operation leaves an environment that can be resumed',
     'If installing, upgrading, uninstalling or setting an option is interrupted or fails at any file-system step, the environment can be reopened and still lists every other installed package with all its files and every option. A package is never listed as installed unless all of its files were put in place, and a package that cannot be read (missing, truncated or corrupt) is never listed. Repeating the operation afterwards completes it with the same result as if nothing had happened.',
     ['crash_points', 'fault_sequences', 'histories'], 'every file-system step of every operation as an interruption or error point, every truncation or corruption of a package file, over generated package histories',
     'No test injects a failure or reopens an environment after one.',
     ['ipkg/environments.py', 'ipkg/utils.py', 'ipkg/packages.py'],
     [('Environment.install, uninstall, set_config', 'ipkg/environments.py'), ('DictFile.save', 'ipkg/utils.py')],
     ['environment tree and package list after reopening', 'result of repeating the operation'])

prop('C14', 'Nothing outside the target directory is ever touched',
     'Installing or uninstalling a package never creates, changes or removes anything outside the environment, and unpacking a source archive never creates or changes anything outside its target directory, whatever paths, links or file lists the package, archive or metadata contains. Content that would escape is refused with an ipkg error.',
     ['inputs'], 'packages and archives in all formats whose members are absolute, climb with "..", pass through or link to other places by symbolic or hard links, or whose file list names such paths',
     'Only well-formed packages and archives are tested.',
     ['ipkg/packages.py', 'ipkg/environments.py', 'ipkg/utils.py'],
     [('PackageFile.extract', 'ipkg/packages.py'), ('Environment.uninstall', 'ipkg/environments.py'), ('unarchive', 'ipkg/utils.py')],
     ['the directory tree around the environment or target'])

prop('C15', 'Environment variables expose the environment first and keep what was inherited',
     'Within an environment, the search-path variables (executables, libraries, headers, manuals, pkg-config) start with the environment\'s own directories, followed by the inherited entries in their order without repeating those directories; all other inherited variables are unchanged except those naming the environment, its temporary directory and the prompt. Variables of installed packages are set, with directory placeholders replaced and any other text kept as is, also after reopening. The exported listing, evaluated by a shell, gives exactly these values.',
     ['inputs', 'configurations', 'histories'], 'all inherited environments (missing, single, repeated, already active entries), package variables with and without placeholders or stray percent signs, prefixes with spaces or shell characters, nested environments and reopenings',
     'One variable is checked on one prefix with no inherited environment.',
     ['ipkg/environments.py', 'ipkg/packages.py'],
     [('EnvironmentVariables', 'ipkg/environments.py'), ('PathListVariable', 'ipkg/environments.py')],
     ['variables of an environment object, printenv output, environment seen by executed commands'])

prop('C16', 'Commands run with exactly the given arguments, input and environment',
     'A command given as a list is run with exactly those arguments, one given as text is split by shell quoting rules; it runs in the given directory with exactly the given environment and receives exactly the given input, and its captured output is returned unchanged. A command that cannot be started or exits with a non-zero status raises an ipkg error that names the command and the reason; a zero status never does.',
     ['inputs'], 'all argument lists and quoted texts (empty, blank, quotes, shell characters, non-ASCII), environments, inputs of any bytes and length, working directories and exit statuses 0 to 255',
     'Six fixed commands are run; quoting, working directory, exact input and exit codes beyond 1 are not covered.',
     ['ipkg/utils.py', 'ipkg/environments.py', 'ipkg/build.py'],
     [('execute', 'ipkg/utils.py'), ('Environment.execute', 'ipkg/environments.py'), ('Formula.run_command', 'ipkg/build.py')],
     ['what the started program observes, and the result or error'])

prop('C17', 'Stored metadata survives: saves are all-or-nothing and reload exactly',
     'A stored mapping that was saved is read back equal by any later reader, options set in an environment are returned after reopening, and clearing empties both the mapping and its file. A save that fails or is interrupted at any point, or that is given a value that cannot be stored, leaves the previously saved content readable. A non-empty file whose content is not a mapping is refused with an ipkg error and never read as empty or altered.',
     ['inputs', 'crash_points', 'histories'], 'all sequences of set, delete, save, clear, reload and reopen over text, number, list and nested values, with an interruption at any write, and arbitrary file contents',
     'A single save and a single clear with one integer are tested; no failing or interrupted save, no clear before a save.',
     ['ipkg/utils.py', 'ipkg/environments.py', 'ipkg/repositories.py'],
     [('DictFile', 'ipkg/utils.py'), ('Environment.get_config, set_config', 'ipkg/environments.py')],
     ['mapping contents before and after reopening', 'the file on disk'])

prop('C18', 'Source archives of every supported format unpack to exactly their content',
     'Unpacking a tar.gz, tar.bz2, tar.xz or zip archive with one root directory creates exactly the archived files with their contents (and, for tar, modes and links) under the target and returns the path of that root, for every way the archive spells its paths. An archive with no or several root items, or with an unsupported name, is refused with an ipkg error and nothing is unpacked, and so is one cut short or a file that is no archive; unpacking a damaged one never fails otherwise than with an ipkg error.',
     ['inputs'], 'all generated trees in the four formats, with or without directory entries and leading "./", opened as files, as resources or over HTTP, plus archives with 0 or 2 and more roots, cut short, damaged or replaced by something else',
     'One README per format is unpacked.',
     ['ipkg/utils.py', 'ipkg/build.py', 'ipkg/files/backends/__init__.py'],
     [('unarchive', 'ipkg/utils.py'), ('Formula.unarchive', 'ipkg/build.py')],
     ['directory tree below the target, returned path'])

prop('C19', 'Content that does not match its checksum is never handed out',
     'A resource declared with a checksum opens if and only if its content has exactly that digest under the declared algorithm (sha512, sha384, sha256, sha224, sha1 or md5; the strongest declared one decides), for local files and downloads alike, cached or not. After a successful check the whole content is readable from the start; a mismatch raises an ipkg error every time. A formula whose sources or patches do not match is not built.',
     ['inputs'], 'all contents (empty to several megabytes), all algorithms and combinations, and contents differing by one bit, one byte more or fewer, or swapped blocks',
     'One matching md5 and one bogus checksum are tested, without reading the content afterwards.',
     ['ipkg/build.py', 'ipkg/files/backends/__init__.py', 'ipkg/files/backends/filesystem.py', 'ipkg/files/backends/http.py'],
     [('BaseFile.verify_checksum', 'ipkg/files/backends/__init__.py'), ('File.open', 'ipkg/build.py')],
     ['open succeeding or raising, and the bytes read'])

prop('C20', 'Opening a path or URL yields exactly that file\'s bytes',
     'Opening any existing local file, by path or by file URL and whatever characters its path contains, gives a reader whose read, seek and tell behave exactly like those of the file itself; opening over HTTP behaves the same on the served content. Something that is not a file, or a URL of an unknown scheme, is refused with an ipkg error.',
     ['inputs', 'histories'], 'all file contents and names (spaces, #, ?, ;, %, non-ASCII), and all sequences of read, seek and tell',
     'Only one fixed path is opened, and only to verify a checksum.',
     ['ipkg/files/__init__.py', 'ipkg/files/backends/filesystem.py', 'ipkg/files/backends/http.py'],
     [('vopen', 'ipkg/files/__init__.py'), ('LocalFile, HttpFile', 'ipkg/files/backends')],
     ['bytes and positions returned by the reader'])

prop('C21', 'Downloads are complete and the cache only repeats successful ones',
     'Reading a URL gives exactly the complete content the server holds for it, following redirects; an error status, refused connection or transfer cut short raises an ipkg error and is never taken for content or remembered. With a cache directory, a URL downloaded once is later read from the cache without contacting the server, with the bytes downloaded for that very URL, even after interrupted cache writes; without one, nothing is stored.',
     ['histories', 'fault_sequences', 'inputs', 'crash_points'], 'all sequences of fetches over several URLs with changing content, sizes around the transfer block size, error statuses, truncated transfers, redirects, cache on, off or missing, and interruptions of cache writes',
     'The download and cache code has no tests at all.',
     ['ipkg/files/backends/http.py', 'ipkg/files/cache.py'],
     [('HttpFile', 'ipkg/files/backends/http.py'), ('has, get, set', 'ipkg/files/cache.py')],
     ['bytes read, requests seen by the server, files in the cache directory'],
     [('cache directory', 'one file per downloaded URL', '$IPKG_CACHE_DIR')])

prop('C22', 'A build packages exactly what was installed and leaves the environment as it was',
     'Building a formula produces one package, named after its name, version, revision and platform, that contains exactly the files and links the install step added to the environment, with their contents and modes, and metadata recording them and the formula\'s attributes. Afterwards the build environment holds the files, packages and variables it held before, packages already installed included, dependencies brought in for the build are gone (an installed package that does not satisfy the formula is upgraded before the install step and stays so), and build directories are removed unless kept.',
     ['inputs', 'histories', 'configurations'], 'all sets of files and links an install step may add (any depth, names, modes, links to files, directories or nothing), existing environment contents, prefixes of any spelling, dependencies with selectors already present or not',
     'One formula copying one README is built in a temporary environment and only the name in the metadata is checked.',
     ['ipkg/build.py', 'ipkg/environments.py', 'ipkg/packages.py'],
     [('Formula.build, find_files', 'ipkg/build.py'), ('make_filename', 'ipkg/packages.py')],
     ['package file content and metadata', 'environment tree before and after', 'temporary directory'])

prop('C23', 'Building then installing elsewhere reproduces the installed software',
     'A package built from a formula and installed in any other environment, directly or through a repository that indexed it, gives there the same files, links, contents and modes as the install step produced, up to relocation, together with its dependencies, its metadata and its environment variables. Uninstalling it restores the environment.',
     ['inputs', 'configurations'], 'generated formulas (sources format, files, links, scripts, patches, variables, dependencies, platforms) built with and without a given environment, installed by file, by name and over HTTP',
     'Build and install are only tested separately, on pre-built packages.',
     ['ipkg/build.py', 'ipkg/environments.py', 'ipkg/packages.py', 'ipkg/repositories.py'],
     [('Formula.build', 'ipkg/build.py'), ('Environment.install', 'ipkg/environments.py')],
     ['environment tree after install and after uninstall'])

prop('C24', 'Loading formulas gives each file its own definition',
     'Loading a formula file returns the one formula class that file defines with the attributes written in it, independent of which other files were loaded before and of their names. A file that does not exist, defines no formula or defines several is refused with an ipkg error, as is instantiating a formula without name, version or sources. A formula repository lists exactly the formulas in its name directories, each once.',
     ['inputs', 'histories'], 'all sequences of loading formula files with equal or different file names, class names and attributes, and all directory layouts with stray files',
     'Each test loads differently named fixture files once.',
     ['ipkg/build.py', 'ipkg/repositories.py', 'ipkg/regex.py'],
     [('Formula.from_file', 'ipkg/build.py'), ('FormulaRepository', 'ipkg/repositories.py')],
     ['attributes of the loaded formulas, contents of the repository'])

prop('C25', 'Repository lookup returns exactly the acceptable packages, newest first',
     'Looking up a requirement in a repository of packages or formulas returns exactly the entries whose name, platform and version satisfy it, each once, ordered from the most recent version and revision to the oldest; asking for one gives the first of them. When nothing matches, the list is empty and asking for one raises an ipkg error. A repository served over HTTP answers like the same repository on disk, and the returned packages can be installed.',
     ['inputs', 'configurations'], 'all repository contents with several names, versions, revisions and platforms, all requirements, served from disk or over HTTP',
     'One repository with a single version per package is queried twice.',
     ['ipkg/repositories.py', 'ipkg/versions.py', 'ipkg/requirements.py'],
     [('BaseRepository.find, __getitem__', 'ipkg/repositories.py'), ('extract', 'ipkg/versions.py')],
     ['packages returned by lookups'])

prop('C26', 'The repository index describes exactly the packages on disk',
     'After updating a repository\'s metadata, adding packages to it or building formulas into it, in any order and number of times, its index, also when reopened, lists each package file present exactly once, with the metadata stored in that file and the sha256 checksum of its current content. Files that are not packages do not disturb it, updating is idempotent, and every listed package can be opened.',
     ['histories', 'inputs'], 'all sequences of adding, replacing and removing package files, updating, adding, building, rebuilding and reopening, with stray files and directories',
     'One package is indexed once and only the set of names is checked.',
     ['ipkg/repositories.py', 'ipkg/utils.py'],
     [('LocalPackageRepository.update_metadata, add, build_formula', 'ipkg/repositories.py')],
     ['repository.json and the iterated packages'],
     [('repository.json', 'index of packages by name', 'REPOSITORY/repository.json')])

prop('C27', 'Building a repository builds every buildable formula once, dependencies first',
     'Building all formulas of a formula repository terminates and adds a package for every formula not yet packaged whose dependencies are packaged or can be built, building dependencies before the formulas that need them whatever the listing order. Formulas that fail, lack a dependency or depend on each other in a cycle are reported and skipped without affecting the others. Building again builds nothing that was already packaged.',
     ['inputs', 'histories', 'fault_sequences'], 'all sets of formulas with dependency graphs (chains, diamonds, cycles, missing, version selectors), some failing to build, partly packaged already, with or without a shared environment',
     'The test of this operation is commented out.',
     ['ipkg/repositories.py', 'ipkg/build.py'],
     [('LocalPackageRepository.build_formulas', 'ipkg/repositories.py')],
     ['returned packages, repository index, order of builds'])

prop('C28', 'The command line does what the library does and reports every failure',
     'Each command (mkenv, install, uninstall, list, printenv, exec, build, mkrepo, build-repository, config:get, config:set) has the same effect on disk and shows the same information as the corresponding operations, using the active environment when none is named. A failure ends with a non-zero exit status and an error message and leaves no partial result recorded; success ends normally.',
     ['inputs', 'histories'], 'all sequences of commands with valid and invalid arguments, explicit, active and missing environments',
     'The command line has no tests at all.',
     ['ipkg/cli.py', 'ipkg/environments.py', 'ipkg/repositories.py'],
     [('Ipkg command registry and command functions', 'ipkg/cli.py')],
     ['exit status, output, environment and repository contents'])

prop('C29', 'Creating an environment is complete and never clobbers',
     'Creating an environment makes all of its directories (also when the prefix has unusual characters, a trailing slash or is relative), after which it is usable from any working directory and installs work. Creating over something that exists is refused with an ipkg error unless explicitly allowed, and in both cases existing files stay. Temporary directories are fresh, lie within the environment and are emptied by clean-up, which touches nothing else.',
     ['inputs', 'histories'], 'all prefixes and states of the target path (absent, file, partially or fully created, populated), and all sequences of creating, temporary directories and cleaning up',
     'One fresh environment is created and one directory checked.',
     ['ipkg/environments.py', 'ipkg/utils.py'],
     [('EnvironmentDirectories.create', 'ipkg/environments.py'), ('mkdir', 'ipkg/utils.py'), ('Environment.mktmpdir, cleanup_tmpdir', 'ipkg/environments.py')],
     ['directory tree, errors'])

prop('C30', 'OS X binaries find their libraries where they are installed',
     'On OS X, installing a package into another prefix than that it was built in gives each Mach-O file of its bin, sbin and lib* directories which has an identification name the path it is installed at for one, and moves each library it references from below the build prefix to the same place below the environment, whatever the names of the libraries and the permissions of the file. All other references, the rest of these files, their permissions and all other files stay as they were built; so do all of them when the prefixes are the same or the machine is no OS X one.',
     ['inputs'], 'all packages with Mach-O files (32 and 64 bits, with and without a name, any permissions), libraries below, beside and outside of the build prefix, with unusual characters, all pairs of prefixes; the tools of OS X are stand-ins which edit model files',
     'The code only runs on OS X, and has no test.',
     ['ipkg/prefix_rewriters.py', 'ipkg/environments.py'],
     [('rewrite_osx_bin, get_osx_bin_libs', 'ipkg/prefix_rewriters.py'), ('Environment.__install_package', 'ipkg/environments.py')],
     ['the names and references of the files, their permissions'])

prop('C31', 'The steps of a build run exactly as the formula writes them',
     'Each step that the install method of a formula runs (run_command, run_NAME, run_configure) runs the command named with exactly the arguments written: those of a list as they are, a text given to run_command split by shell quoting rules and one given to run_NAME at white space, directory placeholders of configure arguments replaced. It runs once, in the order written, in the root directory of the unpacked sources unless another directory is given, receives exactly the input given and has the variables of the build environment and those of the formula for building. All patches were applied before, in their order; the default steps are ./configure, make and make install. When a step fails the following ones do not run, and the build ends with an ipkg error and makes no package. Building again runs the same steps.',
     ['inputs', 'histories'], 'all install methods of steps of all kinds with any arguments, inputs and directories, failing at any step, with patches, given or temporary environments, built once or again by the same formula object',
     'The tests run one configure step, replaced by a stand-in which does nothing.',
     ['ipkg/build.py', 'ipkg/utils.py', 'ipkg/environments.py'],
     [('Formula.run_command, run_configure, __getattr__, install, __build_package', 'ipkg/build.py'), ('execute', 'ipkg/utils.py')],
     ['what the commands report they were given, the result of the build'])

for p in P:
    print(json.dumps(p))

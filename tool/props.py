#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. CLAIMED: what a check decides; NA: what static analysis cannot decide here."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na)


P = []


def add(*a, **k):
    P.append(p(*a, **k))


add('P01', 'No null pointer is dereferenced, whatever source code is analysed',
    'Whatever translation unit is given to clazy (templates, macros, implicit code, calls through member pointers, incomplete types, code that only half compiles), no check and no helper dereferences a pointer that the compiler\'s AST, type, macro or file interfaces may legitimately return as null, nor passes one to a function that dereferences it. Every such value is tested on the path that uses it, so analysing any input ends normally instead of crashing the compiler.',
    ['inputs', 'programs'], 'every source file, every check, every path of every function',
    'The tests sample some 100 hand-written files; a null only appears for AST shapes nobody wrote down (16 crashes found on the pinned commit while all tests pass).',
    ['src/'], [('null tests before use', 'every Visit* override and every helper in src/')],
    'interprocedural path-sensitive nullness dataflow over the CFGs',
    'Static: every dereference in every function of every translation unit is an obligation; trusts the curated list of accessors that may return null.')

add('P02', 'No position, kind, class or search result is used outside its precondition',
    'Whatever translation unit, option, environment variable or checks file is given to clazy, no check and no helper asks a call for an argument, a function for a parameter, a list or a text for an element or a character that it does not have, takes the first or last element of something empty, casts a node to a class it is not of, reads a template argument as what it is not, or uses the result of a search that found nothing.',
    ['inputs', 'programs', 'configurations'], 'every source file, every check, every path of every function',
    'Calls with fewer arguments than expected (dependent calls, overloads, C++23 subscripts, macros) are not in the test files: ten crashes were found on the pinned commit while all tests pass.',
    ['src/'], [('size tests before element access', 'every Visit* override and every helper in src/')],
    'interprocedural zone-domain dataflow over the CFGs',
    'Static: every indexed access, front/back, unchecked cast, kind-specific accessor and iterator dereference is an obligation; trusts the arities the syntax tree guarantees and five reasoned exceptions listed in the evidence.')

add('P03', 'Per-translation-unit objects are used only when they exist',
    'Objects that clazy creates per translation unit and that may be absent (the preprocessor record and the access-specifier record when a precompiled header is used, the parent map outside statement visits, the AST context during preprocessing, the last-seen declarations, the fix-it exporter) are never used by code that can run while they are absent without being tested first. Every front end (compiler plugin, standalone tool, clang-tidy module) creates the recorders whenever no precompiled header is in use, sets the AST context before it traverses, and the parent map exists for every statement a check is given.',
    ['configurations', 'schedules'], 'every front end, precompiled header or not, every order in which preprocessor, declaration, statement and matcher callbacks arrive',
    'No test uses a precompiled header and the callback order of a test file is fixed.',
    ['src/ClazyContext.cpp', 'src/ClazyContext.h', 'src/ClazyVisitHelper.cpp', 'src/Clazy.cpp', 'src/ClazyClangTidyModule.cpp', 'src/checks/'],
    [('ClazyContext members', 'src/ClazyContext.h'), ('dispatch', 'src/ClazyVisitHelper.cpp')],
    'call-graph phase labelling + fact dataflow',
    'Static: every use of a context object is checked in each phase the call graph can reach it from; assumes the enclosing declaration is dispatched before its statements.')

add('P04', 'A suppression comment silences exactly what it says, however often asked',
    'A warning of a check at a location is suppressed exactly if the file (of the place where a macro is expanded) contains clazy:skip or clazy:excludeall naming the check, or the line is covered by clazy:exclude or clazy:exclude-next-line naming the check, by NOLINT or NOLINTNEXTLINE without a list or with a matching clazy- glob, or by a NOLINTBEGIN/NOLINTEND range without a list or with a matching glob, ends included. Every comment of the file counts, the last token included; several suppressions on one line, nested and overlapping ranges all count; entries for other tools do not. Asking does not change the answer to later questions.',
    ['inputs', 'histories'], 'every comment text, every combination of comments in a file, every order of warnings',
    'The tests have one suppression per line and one warning per suppressed line; order and combination of suppressions are unbounded.',
    ['src/SuppressionManager.cpp', 'src/SuppressionManager.h'],
    [('isSuppressed', 'src/SuppressionManager.cpp'), ('parseFile', 'src/SuppressionManager.cpp'), ('splitDisabledChecksText, createRegexFromGlob', 'src/SuppressionManager.cpp')],
    'path-enumerating abstract interpretation compared with a three-valued decision formula',
    'Static: all paths of the query and of one iteration of the parser are compared with the specification; loops are decided per iteration. Trusts std::regex, llvm::Regex and the lexer.')

add('P05', 'A warning is reported exactly if no suppression, ignore rule or filter hits',
    'A warning of a check is reported exactly if it is not suppressed for that check, its file is not in an ignored directory (which wins over everything) and, unless it is the main file or cannot be named, matches the header filter, and its line is inside the line filter (inclusive ranges; an entry without ranges allows the whole file; file names match as suffixes; no filter allows everything). Inside macros, a warning at a presumed location already warned about by the check is reported once only. No other path reaches the compiler\'s diagnostics, and a queued warning is subject to the same filters.',
    ['inputs', 'configurations', 'histories'], 'every location, every combination of filters, every order of warnings',
    'The tests exercise each filter alone on one or two files.',
    ['src/checkbase.cpp', 'src/ClazyContext.cpp', 'src/ClazyContext.h', 'src/Utils.cpp'],
    [('emitWarning, isFilteredOut', 'src/checkbase.cpp'), ('shouldIgnoreFile', 'src/ClazyContext.h'), ('passesLineFilter', 'src/ClazyContext.cpp')],
    'path-enumerating abstract interpretation compared with a three-valued decision formula; call-graph confinement of the reporter',
    'Static: every path from a check\'s request to the compiler\'s diagnostics engine is enumerated; regular expressions and the source manager are uninterpreted.')

add('P06', 'A warning becomes an error exactly when asked for',
    'A diagnostic is reported as an error exactly if its check is named in CLAZY_CHECKS_AS_ERRORS (names of checks that do not exist are left out), or the compiler treats warnings as errors and CLAZY_NO_WERROR is not set; otherwise it is a warning. All diagnostics of clazy take their severity from this decision.',
    ['inputs', 'configurations'], 'every check, every environment and compiler configuration, every diagnostic',
    'One test promotes one check; the combinations of environment and -Werror are not run.',
    ['src/checkbase.cpp', 'src/ClazyContext.cpp', 'src/ClazyContext.h', 'src/checkmanager.cpp'],
    [('emitWarning severity', 'src/checkbase.cpp'), ('treatAsError', 'src/ClazyContext.h'), ('checksAsErrors', 'src/checkmanager.cpp')],
    'path-enumerating abstract interpretation compared with a three-valued decision formula',
    'Static: every path from a check to a diagnostic is enumerated with the severity it passes.')

add('P10', 'What clazy reports depends only on the unit at hand, not on earlier ones',
    'What clazy reports for a translation unit depends only on that unit, the options and the environment, not on units processed before in the same process. Nothing learned from a unit is kept in storage that outlives it, and checks are created anew for every unit.',
    ['histories'], 'every sequence of translation units processed by one process (standalone tool, clang-tidy)',
    'Every test processes one file per process.',
    ['src/'], [('statics and globals', 'src/'), ('check creation', 'src/checkmanager.cpp, src/ClazyClangTidyModule.cpp')],
    'effect analysis of static storage: taint of what is written by per-unit data',
    'Static: every static and global variable and every write to it is classified; assumes the environment does not change while the process runs.')

add('P17', 'A report reaches the compiler unchanged and carries its check\'s tag',
    'The text, location, severity and fix-its a check asks for reach the compiler\'s diagnostic unchanged: the text verbatim whatever characters it has, every non-null fix-it, in order, at the given location. Under the plugin and the standalone tool the text is followed by the tag [-Wclazy-<name of the check>]; under clang-tidy it is given under the name clazy-<name> without a tag.',
    ['inputs', 'configurations'], 'every warning of every check, every text, every front end',
    'The tests compare the output of sample warnings; no text contains a % and no warning has two fix-its of which one is null.',
    ['src/checkbase.cpp', 'src/ClazyContext.cpp', 'src/ClazyClangTidyModule.cpp'],
    [('reallyEmitWarning', 'src/checkbase.cpp'), ('the reporters', 'src/ClazyContext.cpp, src/ClazyClangTidyModule.cpp')],
    'abstract interpretation: value flow from the request to the diagnostic builder',
    'Static: every path from the request to the diagnostic builder is enumerated.')

add('P18', 'Exported fix-its and notes are complete and exact',
    'With export-fixes, every warning of the translation unit becomes exactly one entry of the exported list, with its name, text, place (of the file, when in a macro) and every one of its fix-its as a replacement of the right range by the right text in the right file; notes become notes of the warning they follow, and of no other. Everybody else still receives every diagnostic. The list is written to the file that was asked for when the context goes away, it is empty at the start of a translation unit under the plugin and accumulates under the standalone tool, and no update of it is made to a copy.',
    ['inputs', 'configurations', 'histories'], 'every sequence of diagnostics, every fix-it, both front ends',
    'The tests apply the exported replacements of sample files; notes, macros, rejected replacements and sequences of translation units are not in them.',
    ['src/FixItExporter.cpp', 'src/ClazyContext.cpp', 'src/Clazy.cpp'],
    [('FixItExporter::HandleDiagnostic', 'src/FixItExporter.cpp'), ('ClazyContext::~ClazyContext', 'src/ClazyContext.cpp')],
    'abstract interpretation of the diagnostics consumer against an event specification; use analysis of copies',
    'Static: every path of the exporter is enumerated; trusts clang\'s Replacements and YAML writer.')

add('P19', 'Texts, iterators and references are not used beyond what they refer to',
    'No text view, array view, reference, pointer or iterator that clazy makes is kept, stored or returned when it refers to a temporary or to a local object that is gone by then, whatever the length of the text. None is used after the container or string it points into was rearranged: an element erased or inserted, cleared or assigned anew, in the loop that goes through it or elsewhere, directly or by a function called meanwhile. So names, source texts, option values and lists of findings are what they were when they were obtained.',
    ['inputs', 'programs', 'histories'], 'every source file, every length of every text, every number of elements of every list',
    'A dangling view reads the right characters as long as nobody reuses the memory, short texts live in the object itself, and an invalidated iterator works while the list has spare room; the tests pass either way.',
    ['src/'], [('views and iterators', 'every function in src/')],
    'lifetime dataflow: origin of every view against the death and rearrangement of its storage',
    'Static: every function of every translation unit; a view is followed through conversions, accessors, lists of views and calls. Views stored in data members are checked when stored, and trusted afterwards; syntax-tree memory is taken to live as long as the unit.')

add('P20', 'Clazy terminates on every input',
    'Every loop and every recursion in clazy ends for every source file, command line and environment: each way round a loop brings what its condition looks at closer to the end (a step up the chain of scopes or parents, down the syntax tree, along a text, list or token stream), including ways that leave early by continue and helpers that do the stepping. Every cycle of calls passes on something smaller, counts down, or keeps a list of what was visited. Steps that may stand still (the canonical declaration, an expression without its parentheses, an offset or token length that may be zero) do not count as steps.',
    ['inputs', 'programs', 'histories'], 'every source file, every option value, every nesting depth and number of iterations',
    'A test that ends says nothing about the file on which the loop stands still; the inputs that make a loop spin are rarely in a test suite, as spinning tests get noticed.',
    ['src/'], [('loops and recursive calls', 'every function in src/'), ('locForNextToken', 'src/Utils.cpp'), ('containsVirtualCall', 'src/checks/level2/virtual-call-ctor.cpp')],
    'termination analysis: progress of the controlling variables along every path round each loop and cycle of calls',
    'Static: all loops and call-graph cycles of every translation unit. Steps through the syntax tree, scopes and parents are taken to be along finite chains, and library calls to return; that a chain met in a library is acyclic, and how long it takes, is not decided.')

add('P12', 'Each enabled check is called for every construct and event it asked for',
    'In every front end, each enabled check is created once per unit, gets the context, its preprocessor callbacks if it registered for them and its matchers, and is called for every declaration and every statement of user code (not of system headers, not in included files if these are to be ignored and the check allows that) if and only if it registered for that kind; checks registered for all typedefs get those of system headers too. The traversal is never cut short except when a broken tree has no parent map, and each preprocessor event reaches the same-named method of the check with its own arguments. When a check is called, the access-specifier record, the last-visited declarations and the parent map already include the construct; only units with Qt are visited under only-qt, and units of the qml cache are not visited.',
    ['inputs', 'configurations', 'programs'], 'every construct of every program, every set of checks, every front end and option',
    'The tests run one check on one file at a time; which other checks run, what else is in the file and in included files is unbounded.',
    ['src/ClazyVisitHelper.cpp', 'src/ClazyVisitHelper.h', 'src/Clazy.cpp', 'src/Clazy.h', 'src/ClazyClangTidyModule.cpp', 'src/checkbase.cpp'],
    [('VisitDecl, VisitStmt', 'src/ClazyVisitHelper.cpp'), ('CreateASTConsumer, HandleTranslationUnit', 'src/Clazy.cpp'), ('ClazyCheck', 'src/ClazyClangTidyModule.cpp'), ('ClazyPreprocessorCallbacks', 'src/checkbase.cpp')],
    'path-enumerating abstract interpretation: calls made on each path and for each element against a three-valued formula',
    'Static: all paths of the dispatch functions, one iteration of each loop over the checks; RecursiveASTVisitor, MatchFinder and Preprocessor are trusted to call back.')

add('P13', 'Every option and environment variable takes effect in every front end',
    'In the standalone tool each option (checks, header-filter, ignore-dirs, line-filter, export-fixes, only-qt, qt-developer, visit-implicit-code, ignore-included-files) sets exactly the field or bit of the context it names, whatever else is given; without them CLAZY_HEADER_FILTER, CLAZY_IGNORE_DIRS and level1 are the defaults. The plugin does the same for its arguments and for CLAZY_HEADER_FILTER, CLAZY_IGNORE_DIRS, CLAZY_EXPORT_FIXES; CLAZY_EXTRA_OPTIONS and CLAZY_NO_WERROR hold for all, and under clang-tidy the context filters nothing itself and reports through clang-tidy. A filter is in force if and only if it is given, verbatim; of a line filter every entry that has a name and every pair of line numbers is in force, and fix-its are exported if and only if asked for, to the file named, or else <main file>.clazy.yaml.',
    ['configurations', 'inputs'], 'every combination of options and environment variables, every line filter, every front end',
    'The tests pass at most two options at a time; there are some thousand combinations.',
    ['src/ClazyContext.cpp', 'src/ClazyContext.h', 'src/Clazy.cpp', 'src/ClazyStandaloneMain.cpp', 'src/ClazyClangTidyModule.cpp'],
    [('ClazyContext constructor, parseLineFilter', 'src/ClazyContext.cpp'), ('ParseArgs, ClazyStandaloneASTAction', 'src/Clazy.cpp'), ('ClazyToolActionFactory', 'src/ClazyStandaloneMain.cpp'), ('ClazyCheck::registerPPCallbacks', 'src/ClazyClangTidyModule.cpp')],
    'abstract interpretation: value flow from the option to the slot of the context, on every path',
    'Static: every path of the front ends and of the construction of the context; llvm::cl and the plugin loader are trusted to deliver the arguments.')

add('P07', 'Exactly the requested checks run: levels, lists, no-<check>, CLAZY_CHECKS',
    'The checks that run are the union of the level that is given, the entries of the comma-separated list (a check, a fix-it for its check, level0 to level2) and those of CLAZY_CHECKS (or all of levels 0 to 2 for all_checks), sorted by name and without duplicates, minus every check that the list or CLAZY_CHECKS names as no-<check>; level1 if nothing was asked for, and a level contains the registered checks of that level and below. Unknown names are ignored and never end the processing of a list. Whatever the order and repetition of the entries, nothing else is added or left out; more than one list selects nothing.',
    ['inputs', 'configurations'], 'every argument list, every list of entries, every value of CLAZY_CHECKS, every set of registered checks',
    'The tests pass one check or one level at a time; the entries, their order and the environment combine without bound.',
    ['src/checkmanager.cpp', 'src/checkmanager.h', 'src/clazy_stl.h'],
    [('CheckManager::requestedChecks, checksForCommaSeparatedString', 'src/checkmanager.cpp'), ('sort_and_remove_dups, checkLessThan', 'src/checkmanager.h')],
    'abstract interpretation with lists as terms (union, selection, removal); comparison with the specified set on every path',
    'Static: the value each path returns is a term over the registered checks; loops are summarised by what one iteration adds or drops. The text helpers themselves (clazy::splitString, endsWith ...) are taken as specified by their names.')
add('P08', 'Every callback a check implements reaches it, unmixed, under its own name',
    'Each registered name makes a new instance of one class that keeps exactly that name and the options it is given, and every traversal or preprocessor callback the class implements is one that its registration asks for. A preprocessor event reaches the check exactly once as the callback of that name with the arguments of the event in their places, and every check that implements one is added to the preprocessor. Every node a check retrieves from a match is bound, with a compatible type, by a matcher the check registers.',
    ['inputs', 'configurations'], 'every registered check, every callback, every preprocessor event of every translation unit',
    'A check whose callback never runs, or is called with two arguments swapped, simply stays silent on most inputs; the tests only contain inputs for the common events of each check.',
    ['src/Checks.h', 'src/checkbase.cpp', 'src/checkbase.h', 'src/checks/'],
    [('CheckManager::registerChecks', 'src/Checks.h'), ('ClazyPreprocessorCallbacks', 'src/checkbase.cpp'), ('Visit* overrides', 'src/checks/')],
    'interpretation of the registration code compared with the class hierarchy; path-wise forwarding obligations; matcher id and type queries',
    'Static: registerChecks and the factories are interpreted symbolically to the table they build; overrides come from the type-checked class hierarchy.')
add('P09', 'The registration table, checks.json, README and docs describe the same checks',
    'The set of registered checks with their level, their fix-its and the callbacks they ask for is the set that checks.json describes; README.md lists each of them under its level with its fix-its, each has its documentation page in docs/checks, and its class lives in the directory of its level. A fix-it is registered for an existing check of its own and starts with fix-.',
    ['configurations'], 'every registered check and fix-it',
    'What a user selects by level or reads in the documentation comes from several files kept in step by hand or by a generator script; no test compares them.',
    ['src/Checks.h', 'checks.json', 'README.md', 'docs/checks/'],
    [('CheckManager::registerChecks', 'src/Checks.h'), ('checks', 'checks.json'), ('list of checks', 'README.md')],
    'interpretation of the registration code compared with the metadata files',
    'Static: the table registerChecks builds is compared entry by entry with checks.json, README.md, docs/checks and the place of the class.')
add('P21', 'Known roles of methods, Qt version and includes are those of the source',
    'The Qt role of a method is decided by the code as written: a marker right before it (Q_SIGNAL over Q_SLOT over Q_INVOKABLE; Q_SCRIPTABLE for being scriptable) wins over the section it stands in, which is that of the last access specifier or signals/slots keyword before its canonical declaration; instantiations and macro-made methods have no known role, and a marker or section inside another macro is none. The Qt version is major*10000+minor*100+patch of the macros the headers define, once all three are known, never a partial one, and does not change afterwards; QT_NO_KEYWORDS and predefined names are known whether they come from the code or the command line. The includes that fix-its look up or insert after are those of the primary file, in order, and every QT_BEGIN_NAMESPACE range covers exactly its file and lines.',
    ['inputs', 'histories'], 'every class, every sequence of sections and markers, every sequence of preprocessor events, every command line',
    'The order, spelling and nesting of sections, markers and preprocessor events combine without bound; the tests contain a few usual layouts, with Qt headers of two versions.',
    ['src/AccessSpecifierManager.cpp', 'src/AccessSpecifierManager.h', 'src/PreProcessorVisitor.cpp', 'src/PreProcessorVisitor.h', 'src/MacroUtils.h'],
    [('qtAccessSpecifierType, isScriptable, VisitDeclaration', 'src/AccessSpecifierManager.cpp'), ('AccessSpecifierPreprocessorCallbacks::MacroExpands', 'src/AccessSpecifierManager.cpp'), ('accessSpecifierCompare', 'src/AccessSpecifierManager.cpp'), ('updateQtVersion, InclusionDirective, handleQtNamespaceMacro', 'src/PreProcessorVisitor.cpp'), ('isPredefined', 'src/MacroUtils.h')],
    'abstract interpretation; comparison of every path of the event handlers and queries with the specified role, version and ranges',
    'Static: each event handler and each query is interpreted on every path; that the preprocessor reports each event once, in source order, is assumed.')

# ---- not claimed
add('N01', 'Every check reports exactly the code patterns its documentation describes',
    'For every program, a check reports a construct if and only if the construct has the defect the documentation of the check describes.',
    ['programs'], 'every program and every check', 'The tests sample a few dozen constructs per check.',
    ['src/checks/'], [('Visit* overrides', 'src/checks/')],
    na='There is no specification of the checks other than their code and prose documentation: a static argument has nothing to compare the code with.')
add('N02', 'Applying a fix-it yields code that compiles and means the same',
    'For every program, applying the fix-its clazy offers gives a program that compiles and behaves as before except for the defect reported.',
    ['programs'], 'every program and every fix-it', 'The tests compare the fixed text of sample files.',
    ['src/FixItUtils.cpp', 'src/checks/'], [('fix-it helpers', 'src/FixItUtils.cpp')],
    na='Quantifies over the semantics of arbitrary C++ programs before and after a textual edit; no static argument about clazy\'s own source bounds that.')


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P:
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                                'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash tool/setup.sh', 'checks': [], 'not_applicable': []}
    for q in P:
        if q['na']:
            m['not_applicable'].append({'property': q['id'], 'reason': q['na']})
        else:
            m['checks'].append({'property': q['id'], 'quick_cmd': 'python3 check.py ' + q['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % q['id'], 'technique': q['technique'], 'level': 'other', 'level_note': q['note']})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')


main()

SEEDS=[
dict(id='S17', property='P18', edits=[('FixItExporter.cpp', "        m_recordNotes = false;\n", "        m_recordNotes = m_recordNotes && DiagLevel < DiagnosticsEngine::Fatal;\n")],
 needs='an error with a note after a warning',
 breaks='The note of an error is exported as a note of the warning before it.',
 demo=r'''
cat > a.cpp <<'X'
int f() { int x; return x; }
void g(int, int);
void h() { g(1); }
X
FLAGS="$FLAGS -Wall"
standalone level0 -export-fixes="$T/o.yaml" a.cpp > out
cat out o.yaml
grep -q 'a.cpp:1.*warning' out || exit 3
grep -q 'a.cpp:3.*error' out || exit 3
grep -q 'a.cpp:2.*note' out || exit 3
grep -q "uninitialized" o.yaml || exit 3
grep -q -i "candidate" o.yaml && { echo "wrong note"; exit 1; }
exit 0
'''),
dict(id='S18', property='P18', edits=[('FixItExporter.cpp', "auto MacroLoc = SourceMgr.getFileLoc(Info.getLocation());", "auto MacroLoc = SourceMgr.getSpellingLoc(Info.getLocation());")],
 needs='a warning in the body of a macro that is defined in another file',
 breaks='The exported diagnostic is placed in the file that defines the macro.',
 demo=r'''
cat > m.h <<'X'
#define MUT(s) s.mid(1, 2).toInt()
X
cat > a.cpp <<'X'
#include <QString>
#include "m.h"
int t(QString s)
{
    return MUT(s) + s.mid(1, 2).toInt();
}
X
cp a.cpp b.cpp
standalone qstring-ref -export-fixes="$T/o.yaml" a.cpp > out
cat out o.yaml
grep -q 'a.cpp:5' out || exit 3
grep -q m.h o.yaml && { echo "wrong file"; exit 1; }
exit 0
'''),
dict(id='S19', property='P18', edits=[('FixItExporter.cpp', "    if (!isClazyStandalone) {\n", "    if (!isClazyStandalone || !getTuDiag().MainSourceFile.empty()) {\n")],
 needs='clazy-standalone with several files and export-fixes',
 breaks='Only the fix-its of the last file are exported.',
 demo=r'''
for f in a b; do cat > $f.cpp <<'X'
#include <QString>
int t(QString s)
{
    return s.mid(1, 2).toInt();
}
X
done
standalone qstring-ref -export-fixes="$T/o.yaml" a.cpp b.cpp > out
cat out o.yaml
grep -q 'a.cpp:4' out || exit 3
grep -q 'b.cpp:4' out || exit 3
grep -q 'b.cpp' o.yaml || exit 3
grep -q 'a.cpp' o.yaml || { echo "a.cpp is missing"; exit 1; }
exit 0
'''),
]

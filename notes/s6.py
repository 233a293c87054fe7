SEEDS=[
dict(id='S15', property='P02', edits=[('PreProcessorVisitor.cpp', "        if (pairs.empty()) {", "        if (m_q_namespace_macro_locations.empty()) {")],
 needs='a QT_END_NAMESPACE in a file that has no QT_BEGIN_NAMESPACE',
 breaks='The last of the namespace ranges of a file is accessed although the file has none.',
 demo=r'''
cat > a.cpp <<'X'
#define QT_END_NAMESPACE
QT_END_NAMESPACE
struct A {};
X
plugin qt-macros,qt6-qlatin1stringchar-to-u,qt-keywords,qt6-deprecated-api-fixes,qt6-header-fixes a.cpp > out; rc=$?
cat out
[ $rc -eq 0 ]
'''),
dict(id='S16', property='P02', edits=[('PreProcessorVisitor.cpp', "    if (m_includeInfo.empty()) {\n        return {};\n    }\n    return m_includeInfo.back()", "    return m_includeInfo.back()")],
 needs='use-chrono-in-qtimer warns in a main file that includes nothing itself',
 breaks='The last include is asked for although there is none.',
 demo=r'''
cat > a.cpp <<'X'
class QTimer { public: void setInterval(int); };
void f(QTimer *t) { t->setInterval(5000); }
X
plugin use-chrono-in-qtimer a.cpp > out; rc=$?
cat out
grep -q use-chrono out || exit 3
[ $rc -eq 0 ]
'''),
]

SEEDS=[
dict(id='S25', property='P21', edits=[('PreProcessorVisitor.cpp', "            SourceRange &range = pairs[pairs.size() - 1];\n", "            SourceRange &range = pairs.front();\n")],
 needs='a file with two QT_BEGIN_NAMESPACE/QT_END_NAMESPACE ranges',
 breaks='The second range of a file is never ended (the first one is extended instead), so places in it are said to be outside and places between the ranges inside.',
 demo=r'''
cat > a.cpp <<'X'
#define QT_BEGIN_NAMESPACE
#define QT_END_NAMESPACE
typedef unsigned int uint;
QT_BEGIN_NAMESPACE
struct A {};
inline uint qHash(A) { return 1; }
QT_END_NAMESPACE
struct B {};
inline uint qHash(B) { return 1; }
QT_BEGIN_NAMESPACE
struct C {};
inline uint qHash(C) { return 1; }
QT_END_NAMESPACE
X
plugin qhash-namespace a.cpp -Xclang -plugin-arg-clazy -Xclang qt-developer > out
cat out
grep -q 'a.cpp:6:.*END_NAMESPACE' out && exit 1
grep -q 'a.cpp:9:.*END_NAMESPACE' out || exit 1
grep -q 'a.cpp:12:.*END_NAMESPACE' out && exit 1
exit 0
'''),
dict(id='S26', property='P21', edits=[('PreProcessorVisitor.cpp', "    if (m_qtMajorVersion == -1 || m_qtPatchVersion == -1 || m_qtMinorVersion == -1) {", "    if (m_qtMajorVersion == -1 || m_qtMinorVersion == -1) {")],
 needs='an expansion of QT_VERSION_PATCH that comes after those of QT_VERSION_MAJOR and QT_VERSION_MINOR (the order of QT_VERSION_CHECK) and a decision that depends on the patch level',
 breaks='The version is settled before its patch level is known, one less than the smallest version of that minor release.',
 demo=r'''
cat > a.cpp <<'X'
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 12
#define QT_VERSION_PATCH 4
int v = (QT_VERSION_MAJOR << 16) | (QT_VERSION_MINOR << 8) | QT_VERSION_PATCH;
#define Q_OS_LINUX
#ifdef Q_OS_WINDOWS
#endif
X
cat > b.cpp <<'X'
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 12
#define QT_VERSION_PATCH 3
int v = (QT_VERSION_MAJOR << 16) | (QT_VERSION_MINOR << 8) | QT_VERSION_PATCH;
#define Q_OS_LINUX
#ifdef Q_OS_WINDOWS
#endif
X
plugin qt-macros a.cpp > outa
plugin qt-macros b.cpp > outb
cat outa outb
grep -q '5.12.4' outb || exit 3
grep -q '5.12.4' outa && exit 1
exit 0
'''),
dict(id='S27', property='P21', edits=[('AccessSpecifierManager.cpp', "    for (auto slotLoc : m_preprocessorCallbacks->m_individualSlots) {\n        if (slotLoc == methodLoc.getRawEncoding()) {", "    if (!m_preprocessorCallbacks->m_individualSlots.empty()) {\n        if (m_preprocessorCallbacks->m_individualSlots.back() == methodLoc.getRawEncoding()) {")],
 needs='two methods marked with Q_SLOT in one translation unit',
 breaks='Only the last method that is marked with Q_SLOT counts as a slot.',
 demo=r'''
cat > a.cpp <<'X'
#include <QObject>
class A : public QObject
{
    Q_OBJECT
public:
    Q_SLOT int first() const;
    Q_SLOT int second() const;
};
X
plugin const-signal-or-slot a.cpp > out
cat out
grep -q 'a.cpp:7:.*const-signal' out || exit 3
grep -q 'a.cpp:6:.*const-signal' out || exit 1
exit 0
'''),
dict(id='S28', property='P21', edits=[('AccessSpecifierManager.cpp', "    method = method->getCanonicalDecl();\n\n    const CXXRecordDecl *record = method->getParent();\n", "    const CXXRecordDecl *record = method->getParent();\n    if (record && !record->isDependentContext()) {\n        method = cast<CXXMethodDecl>(method->getMostRecentDecl());\n    }\n")],
 needs='a call of a slot or signal whose definition is outside the class, in the same translation unit',
 breaks='The role of a method is looked for where it is defined instead of where it is declared, so a slot defined outside its class is none.',
 demo=r'''
cat > a.cpp <<'X'
#include <QObject>
class A : public QObject
{
    Q_OBJECT
public:
    void plain() {}
public Q_SLOTS:
    void slot();
    void other();
Q_SIGNALS:
    void sig();
};
void A::slot() {}
void f(A *a)
{
    QObject::connect(a, &A::sig, a, &A::plain);
    emit a->slot();
    QObject::connect(a, &A::slot, a, &A::other);
}
X
plugin connect-non-signal,incorrect-emit,const-signal-or-slot,connect-not-normalized a.cpp > out
cat out
grep -q 'a.cpp:18:.*slot is not a signal' out || exit 1
exit 0
'''),
]

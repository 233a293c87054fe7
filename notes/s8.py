SEEDS=[
dict(id='S20', property='P19', edits=[('ClazyContext.cpp', "    const llvm::StringRef fileName(ploc.getFilename());\n    const unsigned line = ploc.getLine();\n", "    // Line filters always use forward slashes\n    const llvm::StringRef fileName = llvm::sys::path::convert_to_slash(ploc.getFilename());\n    const unsigned line = ploc.getLine();\n"),
  ('ClazyContext.cpp', '#include <llvm/Support/Regex.h>\n', '#include <llvm/Support/Path.h>\n#include <llvm/Support/Regex.h>\n')],
 needs='a line filter that names the file by the whole of its path, whose beginning is overwritten when the copy is freed',
 breaks='The file name the line filter is compared with is freed memory, so warnings the filter selects are dropped.',
 demo=r'''
mkdir -p "$T/a/rather/long/path/so/that/the/text/is/on/the/heap"
F="$T/a/rather/long/path/so/that/the/text/is/on/the/heap/a.cpp"
cat > "$F" <<'X'
#include <QString>
int t(QString s)
{
    return s.mid(1, 2).toInt();
}
X
standalone qstring-ref -line-filter="[{\"name\":\"$F\"}]" "$F" > out
cat out
standalone qstring-ref "$F" > out2
grep -q 'a.cpp:4.*qstring-ref' out2 || exit 3
grep -q 'a.cpp:4.*qstring-ref' out || { echo "dropped"; exit 1; }
exit 0
'''),
dict(id='S22', property='P20', edits=[('checks/level2/virtual-call-ctor.cpp', "    processedStmts.push_back(stmt);\n\n    std::vector<CXXMemberCallExpr *> memberCalls;\n", "    std::vector<CXXMemberCallExpr *> memberCalls;\n"),
   ('checks/level2/virtual-call-ctor.cpp', "    clazy::getChildsIgnoreLambda(stmt, memberCalls);\n", "    clazy::getChildsIgnoreLambda(stmt, memberCalls);\n    if (memberCalls.empty()) {\n        processedStmts.push_back(stmt);\n        return {};\n    }\n")],
 needs='a constructor that calls a member function that calls itself, possibly through others',
 breaks='The search for virtual calls follows the recursion forever and overflows the stack.',
 demo=r'''
cat > a.cpp <<'X'
struct A {
    A(int n) { walk(n); }
    virtual ~A();
    virtual void v();
    void walk(int n) { if (n > 0) back(n - 1); }
    void back(int n) { if (n > 0) walk(n - 1); }
};
struct B {
    B() { start(); }
    virtual void v() = 0;
    void start() { v(); }
};
X
plugin virtual-call-ctor a.cpp > out; rc=$?
head -20 out
[ $rc -eq 0 ] || exit 1
grep -q 'virtual-call-ctor' out
'''),
dict(id='S23', property='P20', edits=[('checks/level0/fully-qualified-moc-types.cpp', "            TL = RefLoc.getPointeeLoc();\n", "            TL = RefLoc.getPointeeLoc();\n        } else if (auto ParenLoc = TL.getAs<ParenTypeLoc>()) {\n            TL = ParenLoc.getUnqualifiedLoc(); // int (&a)[2]\n")],
 needs='a signal, slot or invokable that takes an array of a fixed size by reference',
 breaks='The loop that strips the type takes the same type again and again: clazy never ends.',
 demo=r'''
cat > a.cpp <<'X'
#include <QObject>
class A : public QObject
{
    Q_OBJECT
public:
    struct In {};
    Q_INVOKABLE void f(int (&buffer)[4]);
    Q_INVOKABLE void g(In);
};
X
timeout 60 $LLVM/clang++ -fsyntax-only $FLAGS -Xclang -load -Xclang "$REPO/_build/lib/ClazyPlugin.so" -Xclang -add-plugin -Xclang clazy -Xclang -plugin-arg-clazy -Xclang fully-qualified-moc-types a.cpp > out 2>&1; rc=$?
cat out
[ $rc -eq 124 ] && exit 1
grep -q 'fully-qualified-moc-types' out || exit 3
exit 0
'''),
dict(id='S24', property='P20', edits=[('checks/level0/wrong-qevent-cast.cpp', "            if (declRef && declRef->getDecl() == event->getDecl()) {\n                return nullptr;\n            }\n        }\n\n        if (auto *caseStmt", "            if (!declRef) {\n                continue;\n            }\n            if (declRef->getDecl() == event->getDecl()) {\n                return nullptr;\n            }\n        }\n\n        if (auto *caseStmt")],
 needs='an event cast inside an if whose condition names no variable, in a case of a switch over the event type',
 breaks='The walk up from the cast stays at that if: clazy never ends.',
 demo=r'''
cat > a.cpp <<'X'
#include <QObject>
#include <QEvent>
#include <QCoreApplication>
class QKeyEvent : public QEvent {};
class A : public QObject
{
    bool event(QEvent *e) override
    {
        switch (e->type()) {
        case QEvent::Timer:
            if (sizeof(int) == 4) {
                return static_cast<QKeyEvent *>(e) != nullptr;
            }
            return true;
        case QEvent::ChildAdded:
            return static_cast<QKeyEvent *>(e) != nullptr;
        default:
            return false;
        }
    }
};
X
timeout 60 $LLVM/clang++ -fsyntax-only $FLAGS -Xclang -load -Xclang "$REPO/_build/lib/ClazyPlugin.so" -Xclang -add-plugin -Xclang clazy -Xclang -plugin-arg-clazy -Xclang wrong-qevent-cast a.cpp > out 2>&1; rc=$?
cat out
[ $rc -eq 124 ] && exit 1
grep -q 'wrong-qevent-cast' out || exit 3
exit 0
'''),
]

SEEDS = [
dict(id='S05', property='P10', edits=[('checks/level1/non-pod-global-static.h', "    std::vector<unsigned int> m_emittedWarnings;", "    inline static std::vector<unsigned int> m_emittedWarnings;")],
 needs='two files analysed by one clazy-standalone process, with non-POD statics at the same offset',
 breaks='Locations warned about in one translation unit silence warnings of the next one.',
 demo=r'''
for f in a b; do cat > $f.cpp <<'X'
struct NonPod { NonPod() { x = 1; } ~NonPod() { x = 2; } int x; };
static NonPod s_one;
int use() { return s_one.x; }
X
done
one=$(standalone non-pod-global-static b.cpp)
echo "$one" | grep -q 'b.cpp:2:.*Wclazy-non-pod-global-static' || { echo "setup: $one"; exit 3; }
two=$(standalone non-pod-global-static a.cpp b.cpp)
echo "$two" | grep -q 'b.cpp:2:.*Wclazy-non-pod-global-static' || { echo "lost: $two"; exit 1; }
'''),
dict(id='S06', property='P01', edits=[('checks/level0/temporary-iterator.cpp', "    if (!classDecl || !methodDecl) {", "    if (!classDecl || !memberExpr->getImplicitObjectArgument()) {")],
 needs='a call through a pointer to member function on an object of a container class',
 breaks='A member call without a method declaration crashes temporary-iterator.',
 demo=r'''
cat > a.cpp <<'X'
#include <QList>
typedef qsizetype (QList<int>::*Size)() const;
qsizetype t(const QList<int> &l, Size s)
{
    return (l.*s)();
}
X
out=$(plugin temporary-iterator a.cpp); r=$?
[ $r = 0 ] || { echo "$out" | tail -5; exit 1; }
'''),
dict(id='S07', property='P03', edits=[('checks/level0/overloaded-signal.cpp', "    if (!accessSpecifierManager || !method) {", "    if (!method) {")],
 needs='a translation unit compiled with a precompiled header, with a class that has a method',
 breaks='overloaded-signal uses the record of access specifiers, which does not exist when a precompiled header is in use.',
 demo=r'''
cat > pch.h <<'X'
#include <QObject>
X
cat > a.cpp <<'X'
class A : public QObject { public: void m(); void m(int); };
void A::m() { }
X
$LLVM/clang++ $FLAGS -x c++-header pch.h -o pch.h.pch || exit 3
out=$(plugin overloaded-signal a.cpp -include-pch pch.h.pch); r=$?
[ $r = 0 ] || { echo "$out" | tail -5; exit 1; }
'''),
]

SEEDS = [
dict(id='S08', property='P12', edits=[('ClazyVisitHelper.cpp', "if (isa<TypedefNameDecl>(decl)) {", "if (isa<TypedefDecl>(decl)) {")],
 needs='a type alias (not a typedef) declared in a system header and used as the type of a property',
 breaks='Checks registered for all typedefs do not see the aliases of system headers, so that qproperty-type-mismatch warns about a property whose type is such an alias.',
 demo=r'''
mkdir sys
cat > sys/alias.h <<'X'
using Alias = int;
typedef int Typedef;
X
cat > a.cpp <<'X'
#include <QObject>
#include <alias.h>
class A : public QObject
{
    Q_OBJECT
    Q_PROPERTY(Alias one READ one CONSTANT)
    Q_PROPERTY(Typedef two READ two CONSTANT)
    Q_PROPERTY(QObject *three READ three CONSTANT)
public:
    int one() const;
    int two() const;
    int three() const;
};
X
out=$(plugin qproperty-type-mismatch a.cpp -isystem sys)
echo "$out" | grep -q "a.cpp.*three.*Wclazy-qproperty" || { echo "setup: $out"; exit 3; }
echo "$out" | grep -q "two.*mismatched" && { echo "setup: $out"; exit 3; }
echo "$out" | grep -q "'one'.*mismatch\|one.*Wclazy-qproperty" && { echo "$out"; exit 1; }
exit 0
'''),
dict(id='S09', property='P13', edits=[('ClazyContext.cpp', "        if (!name) {\n            continue;\n        }", "        if (!name) {\n            break;\n        }")],
 needs='a line filter in which an entry without a name comes before a usable one',
 breaks='The entries after one without a name are dropped from the line filter; with none left nothing is filtered any more.',
 demo=r'''
cat > a.cpp <<'X'
struct NonPod { NonPod() { x = 1; } ~NonPod() { x = 2; } int x; };
static NonPod s_one;
static NonPod s_two;
int use() { return s_one.x + s_two.x; }
X
out=$("$REPO/_build/bin/clazy-standalone" -checks=non-pod-global-static '-line-filter=[{"lines":[[1,2]]},{"name":"a.cpp","lines":[[3,3]]}]' a.cpp -- $FLAGS 2>&1)
echo "$out" | grep -q 'a.cpp:3:.*Wclazy' || { echo "lost: $out"; exit 1; }
echo "$out" | grep -q 'a.cpp:2:.*Wclazy' && { echo "not filtered: $out"; exit 1; }
exit 0
'''),
dict(id='S10', property='P13', edits=[('ClazyStandaloneMain.cpp', "            options |= ClazyContext::ClazyOption_QtDeveloper;\n        }\n\n        if (s_onlyQt", "            options |= ClazyContext::ClazyOption_QtDeveloper;\n        } else if (s_onlyQt")],
 needs='both -only-qt and -qt-developer given, on a file that does not use Qt',
 breaks='-only-qt is ignored when -qt-developer is also given.',
 demo=r'''
cat > a.cpp <<'X'
struct NonPod { NonPod() { x = 1; } ~NonPod() { x = 2; } int x; };
static NonPod s_one;
int use() { return s_one.x; }
X
run() { "$REPO/_build/bin/clazy-standalone" -checks=non-pod-global-static "$@" a.cpp -- -std=c++17 2>&1; }
run | grep -q 'a.cpp:2:.*Wclazy' || { run; exit 3; }
run -only-qt | grep -q Wclazy && exit 3
run -only-qt -qt-developer | grep -q Wclazy && { echo "only-qt is ignored"; exit 1; }
exit 0
'''),
]

SEEDS = [
dict(id='S01', property='P05', edits=[('ClazyContext.cpp', """                return true;
            }
        }
    }

    return false; // A""", """                return true;
            }
        }
        break;
    }

    return false; // A""")],
 needs='a line filter with two entries that match the same file, the line being in the second one only',
 breaks='Only the first entry of the line filter that matches the file counts: warnings on lines of a later entry are dropped.',
 demo=r'''
cat > a.cpp <<'X'
struct A { virtual void f(); };
enum E { One };
struct B : public A { void f() override; ~B(); };
#include <QString>
void t(QString s)
{
    if (s == QString("x")) return;
    s.mid(1, 2).toInt();
}
X
out=$(standalone qstring-ref -line-filter='[{"name":"a.cpp","lines":[[1,2]]},{"name":"a.cpp","lines":[[8,8]]}]' a.cpp)
all=$(standalone qstring-ref a.cpp)
echo "$all" | grep -q 'a.cpp:8:.*Wclazy-qstring-ref' || { echo "setup: $all"; exit 3; }
echo "$out" | grep -q 'a.cpp:8:.*Wclazy-qstring-ref' || { echo "dropped: $out"; exit 1; }
'''),
dict(id='S02', property='P04', edits=[('SuppressionManager.cpp', "rangeSuppression.end >= lineNumber", "rangeSuppression.end > lineNumber")],
 needs='a warning on the line of the NOLINTEND comment itself',
 breaks='The last line of a NOLINTBEGIN/NOLINTEND range is not part of the range.',
 demo=r'''
cat > a.cpp <<'X'
#include <QString>
void t(QString s)
{
    s.mid(1, 2).toInt();
    s.mid(1, 2).toInt(); // NOLINTBEGIN(clazy-qstring-ref)
    s.mid(1, 2).toInt();
    s.mid(1, 2).toInt(); // NOLINTEND(clazy-qstring-ref)
}
X
out=$(standalone qstring-ref a.cpp)
echo "$out" | grep -q 'a.cpp:4:' || { echo "check does not work: $out"; exit 3; }
echo "$out" | grep -q 'a.cpp:[567]:' && { echo "not suppressed: $out"; exit 1; }
exit 0
'''),
dict(id='S03', property='P17', edits=[('checkbase.cpp', "m_context->p_warningReporter(name(), loc, severity, error, fixits);", "m_context->p_warningReporter(name(), loc, severity, error, severity == DiagnosticIDs::Error ? std::vector<FixItHint>{} : fixits);")],
 needs='a check with a fix-it promoted to an error (CLAZY_CHECKS_AS_ERRORS or -Werror)',
 breaks='Warnings that are promoted to errors lose their fix-its.',
 demo=r'''
cat > a.cpp <<'X'
#include <QString>
void t(QString s)
{
    s.mid(1, 2).toInt();
}
X
fix() { plugin qstring-ref a.cpp -Xclang -plugin-arg-clazy -Xclang export-fixes -fdiagnostics-parseable-fixits "$@" | grep -c '^fix-it'; }
a=$(fix)
b=$(CLAZY_CHECKS_AS_ERRORS=qstring-ref fix)
c=$(fix -Werror)
[ "$a" -gt 0 ] || { echo "setup: no fix-its"; exit 3; }
[ "$b" = "$a" ] && [ "$c" = "$a" ] || { echo "fix-its: $a, promoted: $b, -Werror: $c"; exit 1; }
'''),
dict(id='S04', property='P06', edits=[('checkmanager.cpp', """                llvm::errs() << "Invalid check: " << name << '\\n';
            } else {
                result.emplace_back(name);""", """                llvm::errs() << "Invalid check: " << name << '\\n';
                break;
            } else {
                result.emplace_back(name);""")],
 needs='CLAZY_CHECKS_AS_ERRORS with a check that does not exist before one that does',
 breaks='The checks listed after an unknown one are not promoted to errors.',
 demo=r'''
cat > a.cpp <<'X'
#include <QString>
void t(QString s)
{
    s.mid(1, 2).toInt();
}
X
export CLAZY_CHECKS_AS_ERRORS=no-such-check,qstring-ref
out=$(standalone qstring-ref a.cpp)
echo "$out" | grep -q 'error:.*Wclazy-qstring-ref' || { echo "$out"; exit 1; }
'''),
]

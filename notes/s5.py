SEEDS=[
dict(id='S13', property='P08', edits=[('checkbase.cpp', "void ClazyPreprocessorCallbacks::Endif(SourceLocation loc, SourceLocation ifLoc)\n{\n    check->VisitEndif(loc, ifLoc);", "void ClazyPreprocessorCallbacks::Endif(SourceLocation loc, SourceLocation ifLoc)\n{\n    if (loc.isMacroID()) {\n        check->VisitEndif(loc, ifLoc);\n    }")],
 needs='a macro defined after the #endif of an #ifndef that guards a similarly named one',
 breaks='Checks never hear of the end of a conditional block.',
 demo=r'''
cat > a.cpp <<'X'
#ifndef FRAMEBUFFER_SRB
int x;
#endif
#define FRAMEBUFFER_SRGB
#ifndef FRAMEBUFFER_SRB
# define FRAMEBUFFER_SRC
#endif
X
out=$(plugin ifndef-define-typo a.cpp)
echo "$out" | grep -q 'a.cpp:6:' || { echo "check does not work: $out"; exit 3; }
echo "$out" | grep -q 'a.cpp:4:' && { echo "block not ended: $out"; exit 1; }
exit 0
'''),
dict(id='S14', property='P09', edits=[('Checks.h', '"copyable-polymorphic", CheckLevel2', '"copyable-polymorphic", CheckLevel1')],
 needs='a level is requested instead of the check itself',
 breaks='A check documented (README, checks.json, directory) as level 2 runs with the default level 1.',
 demo=r'''
cat > a.cpp <<'X'
struct A { virtual void foo(); };
X
plugin copyable-polymorphic a.cpp | grep -q 'copyable-polymorphic' || exit 3
plugin level2 a.cpp | grep -q 'copyable-polymorphic' || exit 3
out=$(plugin level1 a.cpp)
echo "$out" | grep -q 'copyable-polymorphic' && { echo "in level1: $out"; exit 1; }
exit 0
'''),
]

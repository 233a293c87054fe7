SEEDS=[
dict(id='S11', property='P07', edits=[('checkmanager.cpp', "    RegisteredCheck::List checksFromEnv = requestedChecksThroughEnv(/*by-ref*/ userDisabledChecks);", "    std::vector<std::string> disabledThroughEnv;\n    RegisteredCheck::List checksFromEnv = requestedChecksThroughEnv(/*by-ref*/ disabledThroughEnv);\n    CheckManager::removeChecksFromList(checksFromEnv, disabledThroughEnv);")],
 needs='CLAZY_CHECKS switches a check off (no-<check>) that the level or the list on the command line selects',
 breaks='no-<check> in CLAZY_CHECKS only acts on the checks CLAZY_CHECKS itself names; what the command line selects stays on.',
 demo=r'''
cat > a.cpp <<'X'
struct NonPod { NonPod() { x = 1; } ~NonPod() { x = 2; } int x; };
static NonPod s_one;
int use() { return s_one.x; }
X
plugin level1 a.cpp | grep -q 'a.cpp:2:.*non-pod-global-static' || exit 3
out=$(CLAZY_CHECKS="no-non-pod-global-static" plugin level1 a.cpp)
echo "$out" | grep -q 'non-pod-global-static' && { echo "not switched off: $out"; exit 1; }
exit 0
'''),
dict(id='S12', property='P07', edits=[('checkmanager.cpp', "        if (checkForName(result, name) != result.cend()) {\n            continue;", "        if (checkForName(result, name) != result.cend()) {\n            break;")],
 needs='a list that names the same check twice, with further entries after the repetition',
 breaks='The entries after a repeated one are ignored.',
 demo=r'''
cat > a.cpp <<'X'
struct NonPod { NonPod() { x = 1; } ~NonPod() { x = 2; } int x; };
static NonPod s_one;
int use() { return s_one.x; }
X
out=$(standalone "rule-of-three,rule-of-three,non-pod-global-static" a.cpp)
echo "$out" | grep -q 'a.cpp:2:.*non-pod-global-static' || { echo "not selected: $out"; exit 1; }
exit 0
'''),
]

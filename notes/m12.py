# a list in a comment is recorded as a whole
CHECKS = ['P04']
F = 'SuppressionManager.cpp'
A = """            suppressions.checksToSkip.insert(checks.cbegin(), checks.cend());
"""
C = """                suppressions.checksToSkipByLine.insert(LineAndCheckName(lineNumber, checkName));
"""
N = """                suppressions.checksToSkipByLine.insert(LineAndCheckName(lineNumber + 1, checkName));
"""
M = [
(F, A, "            suppressions.checksToSkip.insert(checks.front());\n", 'P04'),
(F, A, "            suppressions.checksToSkip.insert(checks.cbegin() + 1, checks.cend());\n", 'P04'),
(F, A, "            suppressions.checksToSkip = std::set<std::string>(checks.cbegin(), checks.cend());\n", 'P04'),
(F, C, C + "                break;\n", 'P04'),
(F, N, N + "                break;\n", 'P04'),
(F, C, "                if (checkName != checks.front()) {\n    " + C + "                }\n", 'P04'),
(F, N, "                if (checkName.size() > 5) {\n    " + N + "                }\n", 'P04'),
(F, A, "            for (const auto &c : checks) {\n                suppressions.checksToSkip.insert(c);\n            }\n", ''),
(F, A, "            std::copy(checks.begin(), checks.end(), std::inserter(suppressions.checksToSkip, suppressions.checksToSkip.end()));\n", ''),
(F, C, "                const LineAndCheckName entry(lineNumber, checkName);\n                suppressions.checksToSkipByLine.insert(entry);\n", ''),
]

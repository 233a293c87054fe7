CHECKS = ['P04']
F = 'SuppressionManager.cpp'
NL = """            if (std::regex_search(startIt, endIt, match, rx_all)) {"""
M = [
 (F, "(lineNumber + 1, checkName)", "(lineNumber, checkName)", 'P04'),
 (F, "foundNoLintNextLine == -1 ? lineNumber : lineNumber + 1;", "foundNoLintNextLine == -1 ? lineNumber : lineNumber;", 'P04'),
 (F, "isLastToken = lexer.LexFromRawLexer(token);", "isLastToken = lexer.LexFromRawLexer(token);\n        if (isLastToken) {\n            break;\n        }", 'P04'),
 (F, "rangeSuppression.end >= lineNumber", "rangeSuppression.end > lineNumber", 'P04'),
 (F, "rangeSuppression.checksToSkipWildcard.empty()\n                || ", "", 'P04'),
 (F, "        loc = sm.getExpansionLoc(loc);", "        loc = sm.getSpellingLoc(loc);", 'P04'),
 (F, "if (suppressions.skipNextLine.count(lineNumber) > 0)", "if (suppressions.skipNextLine.count(lineNumber) > 1)", 'P04'),
 (F, "        if (it->second.match(checkName)) {\n            return true;", "        if (it->second.match(checkName)) {\n            return true;\n        } else {\n            break;", 'P04'),
 (F, "            suppressions.skipEntireFile = true;\n            return;", "            suppressions.skipEntireFile = suppressions.checksToSkip.empty();\n            return;", 'P04'),
 (F, "if (token.getKind() != tok::comment) {", "if (token.getKind() != tok::comment || token.isAtStartOfLine()) {", 'P04'),
 (F, "        } else if (std::regex_search(startIt, endIt, match, rx_next)) {", "        } else if (!token.isAtStartOfLine() && std::regex_search(startIt, endIt, match, rx_next)) {", 'P04'),
 (F, "checkRangeStack.push({lineNumber, beginChecks});", "checkRangeStack.push({lineNumber + 1, beginChecks});", 'P04'),
 (F, "beginLineNumber, lineNumber});", "beginLineNumber, beginLineNumber});", 'P04'),
 (F, "if (disabledChecks.empty() || !disabledChecksRegexes.empty()) {", "{", 'P04'),
 (F, "if (disabledChecks.empty() || !disabledChecksRegexes.empty()) {", "if (!disabledChecksRegexes.empty()) {", 'P04'),
 (F, 'sanitizedCheckName.consume_front("clazy-") || sanitizedCheckName == "*"', 'sanitizedCheckName.consume_front("clazy-")', 'P04'),
 (F, "RegexText.push_back('$');", "", 'P04'),
 (F, "            RegexText.push_back('.');", "            RegexText.push_back('?');", 'P04'),
 (F, "const auto &split : clazy::splitString(disableText, ',')", "const auto &split : clazy::splitString(disableText, ';')", 'P04'),
 (F, "lexer.SetCommentRetentionState(true);", "", 'P04'),
 (F, "            if (const int idx = comment.find(\"NOLINTBEGIN\", foundNolint); idx != -1) {", "            if (const int idx = comment.find(\"NOLINTBEGIN\", foundNolint); idx != -1 && checkRangeStack.empty()) {", 'P04'),
 (F, "                    for (llvm::Regex &split : splitDisabledChecksText(disableText)) {", "                    for (llvm::Regex &split : splitDisabledChecksText(disableText)) {\n                        if (suppressions.checkWildcardsToSkipByLine.count(lineNumberToSuppress)) continue;", 'P04'),
 (F, "LineAndCheckName(lineNumber, checkName)) != ", "LineAndCheckName(lineNumber, checkName.substr(1))) != ", 'P04'),
 (F, "            suppressions.checksToSkip.insert(checks.cbegin(), checks.cend());", "            suppressions.checksToSkip = {checks.cbegin(), checks.cend()};", 'P04'),
 (F, "                    checkRangeStack.pop();\n", "", 'P04'),
 (F, "parseDisabledChecks(comment, idx + strlen(\"NOLINTEND\"))", "parseDisabledChecks(comment, idx + strlen(\"NOLINTBEGIN\"))", 'P04'),
 (F, "comment.substr(parentPosition + 1, parentEnd - parentPosition - 1)", "comment.substr(parentPosition + 1, parentEnd - parentPosition - 2)", 'P04'),
 (F, "checkRangeStack.top().second != endChecks", "false", 'P04'),
 (F, "        parseFile(fileID, sm, lo);\n        it =", "        if (fileID == sm.getMainFileID()) parseFile(fileID, sm, lo); else return false;\n        it =", 'P04'),
 # equivalent
 (F, "        if (token.getKind() != tok::comment) {", "        if (token.isNot(tok::comment)) {", ''),
 (F, "    bool isLastToken = false;\n    while (!isLastToken) {\n        isLastToken =", "    for (bool isLastToken = false; !isLastToken;) {\n        isLastToken =", ''),
 (F, "            for (const std::string &checkName : checks) {\n                suppressions.checksToSkipByLine.insert(LineAndCheckName(lineNumber, checkName));\n            }", "            std::ranges::for_each(checks, [&](const std::string &checkName) {\n                suppressions.checksToSkipByLine.emplace(lineNumber, checkName);\n            });", ''),
 (F, "        if (clazy::contains(comment, \"clazy:skip\")) {", "        if (comment.find(\"clazy:skip\") != std::string::npos) {", ''),
 (F, "    for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {\n        if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {", "    for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {\n        if (lineNumber < rangeSuppression.begin || lineNumber > rangeSuppression.end) {\n            continue;\n        } else {", ''),
 (F, "    if (suppressions.skipEntireFile) {\n        return true;\n    }\n\n    // Case 2: clazy:excludeall=foo, the check foo will be ignored for this file\n    const bool checkIsSuppressed = suppressions.checksToSkip.find(checkName) != suppressions.checksToSkip.cend();\n    if (checkIsSuppressed) {\n        return true;\n    }", "    if (suppressions.skipEntireFile || suppressions.checksToSkip.contains(checkName)) {\n        return true;\n    }", ''),
 (F, "    if (suppressions.skipNextLine.count(lineNumber) > 0) {", "    if (suppressions.skipNextLine.find(lineNumber) != suppressions.skipNextLine.end()) {", ''),
 (F, "                const int lineNumberToSuppress = foundNoLintNextLine == -1 ? lineNumber : lineNumber + 1;", "                int lineNumberToSuppress = lineNumber;\n                if (foundNoLintNextLine != -1) {\n                    lineNumberToSuppress++;\n                }", ''),
 (F, "        const auto startIdx = comment.find(\"clazy:\");\n        if (startIdx == std::string::npos) {\n            continue; // Early return, no need to look at any regex\n        }", "        const auto startIdx = comment.find(\"clazy:\");\n        if (startIdx == std::string::npos) {\n            continue;\n        }\n        (void)token.getLength();", ''),
 (F, """        } else if (std::regex_search(startIt, endIt, match, rx_current)) {
            std::vector<std::string> checks = clazy::splitString(match[1], ',');
            for (const std::string &checkName : checks) {
                suppressions.checksToSkipByLine.insert(LineAndCheckName(lineNumber, checkName));
            }
        } else if (std::regex_search(startIt, endIt, match, rx_next)) {
            std::vector<std::string> checks = clazy::splitString(match[1], ',');
            for (const std::string &checkName : checks) {
                suppressions.checksToSkipByLine.insert(LineAndCheckName(lineNumber + 1, checkName));
            }
        }""", """        } else {
            auto record = [&](const std::regex &rx, LineNumber line) {
                if (!std::regex_search(startIt, endIt, match, rx)) {
                    return false;
                }
                for (const std::string &checkName : clazy::splitString(match[1], ',')) {
                    suppressions.checksToSkipByLine.insert(LineAndCheckName(line, checkName));
                }
                return true;
            };
            if (!record(rx_current, lineNumber)) {
                record(rx_next, lineNumber + 1);
            }
        }""", ''),
 (F, "                if (disableText.empty()) {\n                    suppressions.skipNextLine.insert(lineNumberToSuppress);\n                } else {", "                if (disableText.length() == 0) {\n                    suppressions.skipNextLine.insert(lineNumberToSuppress);\n                } else {", ''),
 (F, "        if (C == '*') {\n            RegexText.push_back('.');\n        } else if (MetaChars.contains(C)) {\n            RegexText.push_back('\\\\');\n        }", "        switch (C) {\n        case '*':\n            RegexText += '.';\n            break;\n        default:\n            if (MetaChars.find(C) != StringRef::npos) {\n                RegexText += '\\\\';\n            }\n        }", ''),
]

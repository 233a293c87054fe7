CHECKS = ['P05', 'P06', 'P17']
M = [
 ('checkbase.cpp', "    return !m_context->passesLineFilter(loc);", "    return false;", 'P05'),
 ('checkbase.cpp', "    if (isFilteredOut(loc)) {\n        return;", "    if (isFilteredOut(loc) || error.empty()) {\n        return;", 'P05'),
 ('checkbase.cpp', "        if (isFilteredOut(l.first)) {\n            continue;\n        }\n", "", 'P05'),
 ('checkbase.cpp', "        m_emittedWarningsInMacro.push_back(loc.getRawEncoding());", "        m_emittedWarningsInMacro.push_back(sm().getExpansionLoc(loc).getRawEncoding());", 'P05'),
 ('checkbase.cpp', "    if (loc.isMacroID()) {\n        if (warningAlreadyEmitted(loc)) {", "    {\n        if (warningAlreadyEmitted(loc)) {", 'P05'),
 ('ClazyContext.cpp', "line <= range.end", "line < range.end", 'P05'),
 ('ClazyContext.cpp', "if (!fileName.ends_with(entry.fileName)) {\n            continue;", "if (!fileName.ends_with(entry.fileName)) {\n            break;", 'P05'),
 ('ClazyContext.h', "if (!headerFilterRegex || isMainFile(loc)) {", "if (!headerFilterRegex) {", 'P05'),
 ('ClazyContext.h', "            const bool matches = fileMatchesLoc(ignoreDirsRegex, loc, file);\n            if (matches) {", "            const bool matches = fileMatchesLoc(ignoreDirsRegex, loc, file);\n            if (matches && !isMainFile(loc)) {", 'P05'),
 ('ClazyContext.h', "            loc = sm.getExpansionLoc(loc);", "            loc = sm.getSpellingLoc(loc);", 'P05'),
 ('Utils.cpp', "l1.getColumn() == l2.getColumn() && l1.getLine() == l2.getLine()", "l1.getLine() == l2.getLine()", 'P05'),
 ('checkbase.cpp', "m_context->astContext->getDiagnostics().getWarningsAsErrors() && !m_context->userDisabledWError()", "m_context->astContext->getDiagnostics().getWarningsAsErrors()", 'P06'),
 ('checkbase.cpp', "    auto severity = (m_context->treatAsError(m_name)\n", "    auto severity = ((m_context->treatAsError(m_name) && !m_context->userDisabledWError())\n", 'P06'),
 ('checkmanager.cpp', "return check.name == name;\n            });\n            if (it == m_reg", "return check.name != name;\n            });\n            if (it == m_reg", 'P06'),
 ('ClazyContext.cpp', 'engine.getDiagnosticIDs()->getCustomDiagID(level, "%0")', 'engine.getDiagnosticIDs()->getCustomDiagID(level, error)', 'P17'),
 ('ClazyContext.cpp', 'if (!fixit.isNull()) {', 'if (!fixit.isNull() && fixits.size() > 1) {', 'P17'),
 ('ClazyClangTidyModule.cpp', '<< error << fixits', '<< error', 'P17'),
 ('checkbase.cpp', 'reallyEmitWarning(loc, error, fixits);', 'reallyEmitWarning(loc, error, loc.isMacroID() ? std::vector<FixItHint>{} : fixits);', 'P17'),
 # equivalent edits
 ('checkbase.cpp', "    if (m_context->shouldIgnoreFile(loc)) {\n        return true;\n    }\n\n    return !m_context->passesLineFilter(loc);", "    return !m_context->passesLineFilter(loc) || m_context->shouldIgnoreFile(loc);", ''),
 ('ClazyContext.cpp', "        for (const LineRange &range : entry.lineRanges) {\n            if (line >= range.start && line <= range.end) {\n                return true;\n            }\n        }", "        if (std::ranges::any_of(entry.lineRanges, [line](const LineRange &r) { return r.start <= line && !(line > r.end); })) {\n            return true;\n        }", ''),
 ('ClazyContext.cpp', "        for (const LineRange &range : entry.lineRanges) {\n            if (line >= range.start && line <= range.end) {\n                return true;\n            }\n        }", "        for (size_t i = 0; i < entry.lineRanges.size(); ++i) {\n            const auto &range = entry.lineRanges[i];\n            if (line < range.start) {\n                continue;\n            }\n            if (line <= range.end) {\n                return true;\n            }\n        }", ''),
 ('checkmanager.cpp', "            auto it = std::ranges::find_if(m_registeredChecks, [&name](const RegisteredCheck &check) {\n                return check.name == name;\n            });\n            if (it == m_registeredChecks.end()) {", "            bool found = false;\n            for (const auto &check : m_registeredChecks) {\n                if (check.name == name) {\n                    found = true;\n                    break;\n                }\n            }\n            if (!found) {", ''),
 ('ClazyContext.cpp', "        for (const FixItHint &fixit : fixits) {\n            if (!fixit.isNull()) {\n                B.AddFixItHint(fixit);\n            }\n        }", "        for (size_t i = 0; i < fixits.size(); i++) {\n            if (fixits[i].isNull()) {\n                continue;\n            }\n            B.AddFixItHint(fixits[i]);\n        }", ''),
 ('checkbase.cpp', "    auto severity = (m_context->treatAsError(m_name)\n                     || (m_context->astContext && m_context->astContext->getDiagnostics().getWarningsAsErrors() && !m_context->userDisabledWError()))\n        ? DiagnosticIDs::Error\n        : DiagnosticIDs::Warning;", "    auto severity = DiagnosticIDs::Warning;\n    if (m_context->treatAsError(m_name)) {\n        severity = DiagnosticIDs::Error;\n    } else if (!m_context->userDisabledWError()) {\n        if (auto *ast = m_context->astContext; ast && ast->getDiagnostics().getWarningsAsErrors()) {\n            severity = DiagnosticIDs::Error;\n        }\n    }", ''),
]

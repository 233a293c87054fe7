CHECKS = ['P21']
A, P, H = 'AccessSpecifierManager.cpp', 'PreProcessorVisitor.cpp', 'MacroUtils.h'
M = [
 (A, 'name == "slots" || name == "Q_SLOTS"', 'name == "slots"', 'P21'),
 (A, 'name == "slots" || name == "Q_SLOTS"', 'name == "Q_SLOTS" || name == "slots"', ''),
 (A, 'name == "signals" || name == "Q_SIGNALS"', 'name == "signals" || name == "Q_SIGNALS" || name == "emit"', 'P21'),
 (A, 'isSlots ? QtAccessSpecifier_Slot : QtAccessSpecifier_Signal;', 'isSlots ? QtAccessSpecifier_Signal : QtAccessSpecifier_Slot;', 'P21'),
 (A, '        if (loc.isMacroID()) {\n            return;\n        }\n\n        if (isSignals', '        if (isSignals', 'P21'),
 (A, '        if (loc.isMacroID()) {\n            return;\n        }\n\n        if (isSignals', '        if (!loc.isFileID()) {\n            return;\n        }\n\n        if (isSignals', ''),
 (A, 'SourceLocation loc = range.getBegin();\n        if (loc', 'SourceLocation loc = range.getEnd();\n        if (loc', 'P21'),
 (A, 'if (isSignal) {\n                m_individualSignals', 'if (isSlot) {\n                m_individualSignals', 'P21'),
 (A, 'm_invokables.push_back(loc', 'm_scriptables.push_back(loc', 'P21'),
 (A, 'm_scriptables.push_back(loc.getRawEncoding());', 'm_invokables.push_back(loc.getRawEncoding()); m_scriptables.push_back(loc.getRawEncoding());', 'P21'),
 (A, 'm_scriptables.push_back(loc.getRawEncoding());', 'const unsigned where = loc.getRawEncoding(); m_scriptables.emplace_back(where);', ''),
 (A, 'const bool isScriptable = (isSlot || isSignal || isInvokable) ? false : name == "Q_SCRIPTABLE";', 'const bool isScriptable = name == "Q_SCRIPTABLE";', ''),
 (A, 'const bool isInvokable = (isSlots || isSignals || isSlot || isSignal) ? false : name == "Q_INVOKABLE";', 'const bool isInvokable = name.starts_with("Q_INVOKABLE");', 'P21'),
 (A, '            loc = methodLocAfterMarker(loc, m_sm, m_lo);\n', '', 'P21'),
 (A, 'm_qtAccessSpecifiers.push_back({loc, clang::AS_none, qtAccessSpecifier});', 'm_qtAccessSpecifiers.insert(m_qtAccessSpecifiers.begin(), ClazyAccessSpecifier{loc, clang::AS_none, qtAccessSpecifier});', ''),
 # 15 the answers
 (A, 'if (!method || method->getBeginLoc().isMacroID()) {\n        return QtAccessSpecifier_Unknown;', 'if (!method) {\n        return QtAccessSpecifier_Unknown;', 'P21'),
 (A, '    method = method->getCanonicalDecl();\n', '', 'P21'),
 (A, '    method = method->getCanonicalDecl();\n', '    if (!method->isCanonicalDecl()) method = method->getCanonicalDecl();\n', ''),
 (A, ' || method->isTemplateInstantiation()) {', ') {', 'P21'),
 (A, '!record || isa<clang::ClassTemplateSpecializationDecl>(record) ||', '!record ||', 'P21'),
 (A, '            return QtAccessSpecifier_Slot;\n        }\n    }\n\n    // Process Q_INV', '            return QtAccessSpecifier_Signal;\n        }\n    }\n\n    // Process Q_INV', 'P21'),
 (A, 'for (auto loc : m_preprocessorCallbacks->m_invokables) {', 'for (auto loc : m_preprocessorCallbacks->m_scriptables) {', 'P21'),
 (A, 'for (auto loc : m_preprocessorCallbacks->m_invokables) {\n        if (loc == methodLoc.getRawEncoding()) {\n            return QtAccessSpecifier_Invokable;\n        }\n    }', 'if (std::find(m_preprocessorCallbacks->m_invokables.cbegin(), m_preprocessorCallbacks->m_invokables.cend(), methodLoc.getRawEncoding()) != m_preprocessorCallbacks->m_invokables.cend()) {\n        return QtAccessSpecifier_Invokable;\n    }', ''),
 (A, 'for (auto loc : m_preprocessorCallbacks->m_invokables) {\n        if (loc == methodLoc.getRawEncoding()) {\n            return QtAccessSpecifier_Invokable;\n        }\n    }', 'if (std::ranges::any_of(m_preprocessorCallbacks->m_invokables, [&](unsigned l) { return l == methodLoc.getRawEncoding(); })) {\n        return QtAccessSpecifier_Invokable;\n    }', ''),
 (A, 'for (auto loc : m_preprocessorCallbacks->m_invokables) {\n        if (loc == methodLoc.getRawEncoding()) {\n            return QtAccessSpecifier_Invokable;\n        }\n    }', 'if (clazy::contains(m_preprocessorCallbacks->m_invokables, methodLoc.getRawEncoding())) {\n        return QtAccessSpecifier_Invokable;\n    }', ''),
 (A, 'for (auto loc : m_preprocessorCallbacks->m_invokables) {\n        if (loc == methodLoc.getRawEncoding()) {', 'for (auto loc : m_preprocessorCallbacks->m_invokables) {\n        if (loc >= methodLoc.getRawEncoding()) {', 'P21'),
 (A, '    --i; // One before', '    // One before', 'P21'),
 (A, '    if (i == accessSpecifiers.cbegin()) {\n        return QtAccessSpecifier_None;\n    }\n', '', 'P21'),
 (A, '    --i; // One before the upper bound is the last access specifier before our method\n    return (*i).qtAccessSpecifier;', '    return std::prev(i)->qtAccessSpecifier;', ''),
 (A, '    --i; // One before the upper bound is the last access specifier before our method\n    return (*i).qtAccessSpecifier;', '    return (i - 1)->qtAccessSpecifier;', ''),
 (A, 'm_specifiersMap.find(record);', 'm_specifiersMap.find(record->getCanonicalDecl());', 'P21'),
 (A, 'const SourceLocation methodLoc = method->getBeginLoc();\n\n    // Process Q_SIGNAL', 'const SourceLocation methodLoc = method->getLocation();\n\n    // Process Q_SIGNAL', 'P21'),
 (A, '        if (loc == methodLoc.getRawEncoding()) {\n            return true;', '        if (loc <= methodLoc.getRawEncoding()) {\n            return true;', 'P21'),
 (A, 'case QtAccessSpecifier_Unknown:\n        return "";\n    case QtAccessSpecifier_Slot:\n        return "slot";', 'case QtAccessSpecifier_Unknown:\n    case QtAccessSpecifier_Slot:\n        return "";', 'P21'),
 # 34 the order
 (A, 'return lhs.loc.isMacroID();\n', 'return rhs.loc.isMacroID();\n', 'P21'),
 (A, 'return realLHSLoc < realRHSLoc;', 'return realRHSLoc < realLHSLoc;', 'P21'),
 (A, 'if (lhs.loc.isMacroID() || rhs.loc.isMacroID()) {', 'if (lhs.loc.isMacroID() && rhs.loc.isMacroID()) {', 'P21'),
 (A, 'SourceLocation realRHSLoc = sm.getFileLoc(rhs.loc);', 'SourceLocation realRHSLoc = sm.getSpellingLoc(rhs.loc);', 'P21'),
 (A, '        return accessSpecifierCompare(lhs, rhs, sm);', '        return accessSpecifierCompare(rhs, lhs, sm);', 'P21'),
 (A, '        return accessSpecifierCompare(lhs, rhs, sm);', '        const bool less = accessSpecifierCompare(lhs, rhs, sm);\n        return less;', ''),
 (A, 'v.insert(std::upper_bound(v.begin(), v.end(), item, pred), item);', 'v.push_back(item);', 'P21'),
 (A, 'v.insert(std::upper_bound(v.begin(), v.end(), item, pred), item);', 'auto where = std::upper_bound(v.begin(), v.end(), item, pred);\n    v.insert(where, item);', ''),
 # 42 attribution
 (A, 'if (classDefinitionForLoc((*it).loc) == record) {', 'if (classDefinitionForLoc((*it).loc)) {', 'P21'),
 (A, '            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);', '            ++it;', 'P21'),
 (A, '            sorted_insert(specifiers, *it, m_sm);\n', '', 'P21'),
 (A, '            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n        } else {\n            ++it;\n        }', '            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n        }\n        if (it != m_preprocessorCallbacks->m_qtAccessSpecifiers.end()) ++it;', 'P21'),
 (A, 'record->getBeginLoc() < loc && loc < record->getEndLoc()', 'record->getBeginLoc() < loc', 'P21'),
 (A, 'record->getBeginLoc() < loc && loc < record->getEndLoc()', 'loc < record->getEndLoc() && record->getBeginLoc() < loc', ''),
 (A, 'const bool visits = isQObject || (m_fixitsEnabled && m_visitsNonQObjects);', 'const bool visits = isQObject && m_visitsNonQObjects;', 'P21'),
 (A, 'if (!accessSpec || accessSpec->getDeclContext() != record) {', 'if (!accessSpec || accessSpec->getAccess() == AS_public) {', 'P21'),
 (A, '{accessSpec->getBeginLoc(), accessSpec->getAccess(), QtAccessSpecifier_None}', '{accessSpec->getEndLoc(), accessSpec->getAccess(), QtAccessSpecifier_None}', 'P21'),
 (A, '        if (!accessSpec || accessSpec->getDeclContext() != record) {\n            continue;', '        if (!accessSpec) {\n            break;', 'P21'),
 # 52 version
 (P, 'm_qtPatchVersion + m_qtMinorVersion * 100 + m_qtMajorVersion * 10000', 'm_qtPatchVersion + m_qtMinorVersion * 10 + m_qtMajorVersion * 10000', 'P21'),
 (P, 'm_qtPatchVersion + m_qtMinorVersion * 100 + m_qtMajorVersion * 10000', '(m_qtMajorVersion * 100 + m_qtMinorVersion) * 100 + m_qtPatchVersion', ''),
 (P, 'm_qtMajorVersion == -1 || m_qtPatchVersion == -1 || m_qtMinorVersion == -1', 'm_qtMajorVersion == -1 || m_qtMinorVersion == -1', 'P21'),
 (P, 'm_qtMinorVersion = stringToNumber', 'm_qtPatchVersion = stringToNumber', 'P21'),
 (P, 'name == "QT_VERSION_PATCH"', 'name == "QT_VERSION_STR"', 'P21'),
 (P, '        m_qtPatchVersion = stringToNumber(getTokenSpelling(def));\n        updateQtVersion();', '        m_qtPatchVersion = stringToNumber(getTokenSpelling(def));', 'P21'),
 (P, '    if (m_qtVersion != -1) {\n        return;\n    }\n', '', 'P21'),
 (P, '    if (m_qtVersion != -1) {\n        return;\n    }\n', '    if (m_qtMajorVersion != -1) {\n        return;\n    }\n', 'P21'),
 (P, 'if (!m_isQtNoKeywords && ii->getName() == "QT_NO_KEYWORDS") {\n        m_isQtNoKeywords = true;', 'if (!m_isQtNoKeywords && ii->getName() == "QT_NO_KEYWORDS") {\n        m_isQtNoKeywords = false;', 'P21'),
 (P, 'if (!m_isQtNoKeywords && ii->getName() == "QT_NO_KEYWORDS") {\n        m_isQtNoKeywords = true;\n        return;', 'if (ii->getName() == "QT_NO_KEYWORDS") {\n        m_isQtNoKeywords = true;\n        return;', ''),
 (P, 'clazy::isPredefined(pp.getPreprocessorOpts(), "QT_NO_KEYWORDS")', 'clazy::isPredefined(pp.getPreprocessorOpts(), "QT_NO_EMIT")', 'P21'),
 (H, 'predefined = !isUndef;', 'predefined = true;', 'P21'),
 (H, "llvm::StringRef(definition).split('=').first == macroName", 'definition == macroName', 'P21'),
 (H, "llvm::StringRef(definition).split('=').first == macroName", "llvm::StringRef(definition).take_until([](char c) { return c == '='; }) == macroName", ''),
 # 67 includes
 (P, 'if (m_pp.isInPrimaryFile()) {', 'if (m_pp.isInPrimaryFile() && !IsAngled) {', 'P21'),
 (P, 'if (m_pp.isInPrimaryFile()) {', '{', 'P21'),
 (P, 'IncludeInfo{FileName.str(), IsAngled, FilenameRange}', 'IncludeInfo{FileName.str(), !IsAngled, FilenameRange}', 'P21'),
 (P, 'info.fileName == fileName && info.IsAngled == IsAngled', 'info.fileName == fileName || info.IsAngled == IsAngled', 'P21'),
 (P, 'info.fileName == fileName && info.IsAngled == IsAngled', 'info.fileName == fileName', 'P21'),
 (P, 'info.fileName == fileName && info.IsAngled == IsAngled', 'info.IsAngled == IsAngled && info.fileName == fileName', ''),
 (P, 'm_includeInfo | std::views::reverse', 'm_includeInfo', 'P21'),
 (P, 'if (!clazy::endsWith(info.fileName, ".moc")) {\n            return', 'if (clazy::endsWith(info.fileName, ".moc")) {\n            return', 'P21'),
 (P, 'std::ranges::any_of(m_includeInfo, [&]', 'std::ranges::all_of(m_includeInfo, [&]', 'P21'),
 (P, 'info.filenameRange.getEnd();', 'info.filenameRange.getBegin();', 'P21'),
 # namespaces
 (P, 'const bool isBegin = name == "QT_BEGIN_NAMESPACE";', 'const bool isBegin = name != "QT_BEGIN_NAMESPACE";', 'P21'),
 (P, 'SourceRange &range = pairs[pairs.size() - 1];', 'SourceRange &range = pairs.front();', 'P21'),
 (P, 'SourceRange &range = pairs[pairs.size() - 1];', 'SourceRange &range = pairs.back();', ''),
 (P, 'SourceRange &range = pairs[pairs.size() - 1];', 'SourceRange range = pairs[pairs.size() - 1];', 'P21'),
 (P, '        loc = sm.getExpansionLoc(loc);', '        loc = sm.getSpellingLoc(loc);', 'P21'),
 (P, 'sm.isBeforeInSLocAddrSpace(pair.getBegin(), loc) && sm', 'sm.isBeforeInSLocAddrSpace(loc, pair.getBegin()) && sm', 'P21'),
 (P, 'pair.getBegin().isInvalid() || pair.getEnd().isInvalid()', 'pair.getBegin().isInvalid()', ''),
 (P, 'continue; // shouldn', 'break; // shouldn', 'P21'),
 (P, 'ii->getName() == "QT_BEGIN_NAMESPACE" || ii->getName() == "QT_END_NAMESPACE"', 'ii->getName() == "QT_BEGIN_NAMESPACE"', 'P21'),
 (P, 'handleQtNamespaceMacro(range.getBegin(), ii->getName());', 'const StringRef macroName = ii->getName();\n        const SourceLocation where = range.getBegin();\n        handleQtNamespaceMacro(where, macroName);', ''),
]

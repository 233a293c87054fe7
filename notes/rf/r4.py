R = [
('AccessSpecifierManager.cpp', [
("""        const bool isSlots = name == "slots" || name == "Q_SLOTS";
        const bool isSignals = isSlots ? false : (name == "signals" || name == "Q_SIGNALS");

        const bool isSlot = (isSlots || isSignals) ? false : name == "Q_SLOT";
        const bool isSignal = (isSlots || isSignals || isSlot) ? false : name == "Q_SIGNAL";
        const bool isInvokable = (isSlots || isSignals || isSlot || isSignal) ? false : name == "Q_INVOKABLE";
        const bool isScriptable = (isSlot || isSignal || isInvokable) ? false : name == "Q_SCRIPTABLE";
        if (!isSlots && !isSignals && !isSlot && !isSignal && !isInvokable && !isScriptable) {
            return;
        }

        SourceLocation loc = range.getBegin();
        if (loc.isMacroID()) {
            return;
        }

        if (isSignals || isSlots) {
            QtAccessSpecifierType qtAccessSpecifier = isSlots ? QtAccessSpecifier_Slot : QtAccessSpecifier_Signal;
            m_qtAccessSpecifiers.push_back({loc, clang::AS_none, qtAccessSpecifier});
        } else {
            // Get the location of the method declaration, so we can compare directly when we visit methods
            loc = methodLocAfterMarker(loc, m_sm, m_lo);
            if (loc.isInvalid()) {
                return;
            }
            if (isSignal) {
                m_individualSignals.push_back(loc.getRawEncoding());
            } else if (isSlot) {
                m_individualSlots.push_back(loc.getRawEncoding());
            } else if (isInvokable) {
                m_invokables.push_back(loc.getRawEncoding());
            } else if (isScriptable) {
                m_scriptables.push_back(loc.getRawEncoding());
            }
        }
    }
""", """        const bool isSlots = name == "slots" || name == "Q_SLOTS";
        const bool isSignals = name == "signals" || name == "Q_SIGNALS";
        const bool isSection = isSlots || isSignals;
        if (!isSection && !isMethodMarker(name)) {
            return;
        }

        const SourceLocation markerLoc = range.getBegin();
        if (markerLoc.isMacroID()) {
            return;
        }

        if (isSection) {
            m_qtAccessSpecifiers.push_back({markerLoc, clang::AS_none, isSlots ? QtAccessSpecifier_Slot : QtAccessSpecifier_Signal});
            return;
        }

        // Get the location of the method declaration, so we can compare directly when we visit methods
        const SourceLocation methodLoc = methodLocAfterMarker(markerLoc, m_sm, m_lo);
        if (methodLoc.isValid()) {
            rememberMethod(name, methodLoc.getRawEncoding());
        }
    }

    void rememberMethod(StringRef marker, unsigned methodLoc)
    {
        if (marker == "Q_SIGNAL") {
            m_individualSignals.push_back(methodLoc);
        } else if (marker == "Q_SLOT") {
            m_individualSlots.push_back(methodLoc);
        } else if (marker == "Q_INVOKABLE") {
            m_invokables.push_back(methodLoc);
        } else {
            m_scriptables.push_back(methodLoc);
        }
    }
"""),
("""    auto *record = dyn_cast<CXXRecordDecl>(decl);
    if (!record) {
        return;
    }

    const bool isQObject = clazy::isQObject(record, m_preprocessorCallbacks->m_qtNamespace);
    const bool visits = isQObject || (m_fixitsEnabled && m_visitsNonQObjects);

    if (!visits) {
""", """    auto *record = dyn_cast<CXXRecordDecl>(decl);
    if (!record) {
        return;
    }

    if (const bool visitsAll = m_fixitsEnabled && m_visitsNonQObjects; !visitsAll && !clazy::isQObject(record, m_preprocessorCallbacks->m_qtNamespace)) {
"""),
("""    auto it = m_preprocessorCallbacks->m_qtAccessSpecifiers.begin();
    while (it != m_preprocessorCallbacks->m_qtAccessSpecifiers.end()) {
        if (classDefinitionForLoc((*it).loc) == record) {
            sorted_insert(specifiers, *it, m_sm);
            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);
        } else {
            ++it;
        }
    }
""", """    ClazySpecifierList &pending = m_preprocessorCallbacks->m_qtAccessSpecifiers;
    for (auto it = pending.begin(); it != pending.end();) {
        if (classDefinitionForLoc(it->loc) != record) {
            ++it;
            continue;
        }
        sorted_insert(specifiers, *it, m_sm);
        it = pending.erase(it);
    }
"""),
("""    for (auto *d : record->decls()) {
        auto *accessSpec = dyn_cast<AccessSpecDecl>(d);
        if (!accessSpec || accessSpec->getDeclContext() != record) {
            continue;
        }
        ClazySpecifierList &specifiers = entryForClassDefinition(record);
        sorted_insert(specifiers, {accessSpec->getBeginLoc(), accessSpec->getAccess(), QtAccessSpecifier_None}, m_sm);
    }
""", """    for (auto *d : record->decls()) {
        if (auto *accessSpec = dyn_cast<AccessSpecDecl>(d); accessSpec && accessSpec->getDeclContext() == record) {
            sorted_insert(specifiers, {accessSpec->getBeginLoc(), accessSpec->getAccess(), QtAccessSpecifier_None}, m_sm);
        }
    }
"""),
]),
('PreProcessorVisitor.cpp', [
("""    return std::ranges::any_of(m_includeInfo, [&](const IncludeInfo &info) {
        return info.fileName == fileName && info.IsAngled == IsAngled;
    });
}
""", """    for (const auto &info : m_includeInfo) {
        if (info.IsAngled == IsAngled && info.fileName == fileName) {
            return true;
        }
    }
    return false;
}
"""),
("""    for (const IncludeInfo &info : m_includeInfo | std::views::reverse) {
        if (!clazy::endsWith(info.fileName, ".moc")) {
            return info.filenameRange.getEnd();
        }
    }
    return {};
""", """    const auto isMoc = [](const IncludeInfo &info) {
        return clazy::endsWith(info.fileName, ".moc");
    };
    const auto last = std::find_if_not(m_includeInfo.crbegin(), m_includeInfo.crend(), isMoc);
    return last == m_includeInfo.crend() ? SourceLocation() : last->filenameRange.getEnd();
"""),
("""    if (!def) {
        return {};
    }

    MacroInfo *info = def.getMacroInfo();
    if (!info) {
        return {};
    }
""", """    MacroInfo *info = def ? def.getMacroInfo() : nullptr;
    if (!info) {
        return {};
    }
"""),
("""    if (m_qtMajorVersion == -1 || m_qtPatchVersion == -1 || m_qtMinorVersion == -1) {
        m_qtVersion = -1;
    } else {
        m_qtVersion = m_qtPatchVersion + m_qtMinorVersion * 100 + m_qtMajorVersion * 10000;
    }
""", """    const bool complete = m_qtMajorVersion != -1 && m_qtMinorVersion != -1 && m_qtPatchVersion != -1;
    m_qtVersion = complete ? 10000 * m_qtMajorVersion + 100 * m_qtMinorVersion + m_qtPatchVersion : -1;
"""),
("""    if (isBegin) {
        pairs.push_back(SourceRange(loc, {}));
    } else {
        if (pairs.empty()) {
            // llvm::errs() << "FOO Received end!!";
        } else {
            SourceRange &range = pairs[pairs.size() - 1];
            if (range.getBegin().isInvalid()) {
                // llvm::errs() << "FOO Error received end before a begin\\n";
            } else {
                range.setEnd(loc);
            }
        }
    }
""", """    if (isBegin) {
        pairs.emplace_back(loc, SourceLocation());
        return;
    }

    if (!pairs.empty() && pairs.back().getBegin().isValid()) {
        pairs.back().setEnd(loc);
    }
"""),
("""    if (str.empty()) {
        return -1;
    }

    return atoi(str.c_str());
""", """    return str.empty() ? -1 : atoi(str.c_str());
"""),
("""    auto name = ii->getName();
    if (name == "QT_VERSION_MAJOR") {
        m_qtMajorVersion = stringToNumber(getTokenSpelling(def));
        updateQtVersion();
    }

    if (name == "QT_VERSION_MINOR") {
        m_qtMinorVersion = stringToNumber(getTokenSpelling(def));
        updateQtVersion();
    }

    if (name == "QT_VERSION_PATCH") {
        m_qtPatchVersion = stringToNumber(getTokenSpelling(def));
        updateQtVersion();
    }
""", """    auto name = ii->getName();
    int *component = nullptr;
    if (name == "QT_VERSION_MAJOR") {
        component = &m_qtMajorVersion;
    } else if (name == "QT_VERSION_MINOR") {
        component = &m_qtMinorVersion;
    } else if (name == "QT_VERSION_PATCH") {
        component = &m_qtPatchVersion;
    }

    if (component) {
        *component = stringToNumber(getTokenSpelling(def));
        updateQtVersion();
    }
"""),
("""    if (m_pp.isInPrimaryFile()) {
        m_includeInfo.push_back(IncludeInfo{FileName.str(), IsAngled, FilenameRange});
    }
""", """    if (!m_pp.isInPrimaryFile()) {
        return;
    }
    IncludeInfo info{FileName.str(), IsAngled, FilenameRange};
    m_includeInfo.push_back(std::move(info));
"""),
]),
('ClazyClangTidyModule.cpp', [
("""            const std::string checkName = "clazy-" + availCheck.name;
            if (std::ranges::find(s_enabledChecks, checkName) == s_enabledChecks.end()) {
                continue;
            }
            auto *check = availCheck.factory();
            m_visitors.addCheck(availCheck.options, check);

            check->registerASTMatchers(*Finder);
            m_allChecks.emplace_back(check, availCheck.options);
""", """            if (isEnabled("clazy-" + availCheck.name)) {
                CheckBase *check = availCheck.factory();
                m_allChecks.emplace_back(check, availCheck.options);
                m_visitors.addCheck(availCheck.options, check);
                check->registerASTMatchers(*Finder);
            }
"""),
("""    const bool m_shouldRunClazyChecks;

""", """    static bool isEnabled(const std::string &name)
    {
        return std::ranges::find(s_enabledChecks, name) != s_enabledChecks.end();
    }

    const bool m_shouldRunClazyChecks;

"""),
("""        for (auto &checkPair : m_allChecks) {
            delete checkPair.first;
        }
""", """        for (const auto &[check, options] : m_allChecks) {
            delete check;
        }
"""),
]),
('ClazyStandaloneMain.cpp', [
("""        ClazyContext::ClazyOptions options = ClazyContext::ClazyOption_None;

        if (!s_exportFixes.getValue().empty()) {
            options |= ClazyContext::ClazyOption_ExportFixes;
        }

        if (s_qtDeveloper.getValue()) {
            options |= ClazyContext::ClazyOption_QtDeveloper;
        }

        if (s_onlyQt.getValue()) {
            options |= ClazyContext::ClazyOption_OnlyQt;
        }

        if (s_visitImplicitCode.getValue()) {
            options |= ClazyContext::ClazyOption_VisitImplicitCode;
        }

        if (s_ignoreIncludedFiles.getValue()) {
            options |= ClazyContext::ClazyOption_IgnoreIncludedFiles;
        }
""", """        const std::pair<bool, ClazyContext::ClazyOption> flags[] = {
            {!s_exportFixes.getValue().empty(), ClazyContext::ClazyOption_ExportFixes},
            {s_qtDeveloper.getValue(), ClazyContext::ClazyOption_QtDeveloper},
            {s_onlyQt.getValue(), ClazyContext::ClazyOption_OnlyQt},
            {s_visitImplicitCode.getValue(), ClazyContext::ClazyOption_VisitImplicitCode},
            {s_ignoreIncludedFiles.getValue(), ClazyContext::ClazyOption_IgnoreIncludedFiles},
        };
        ClazyContext::ClazyOptions options = ClazyContext::ClazyOption_None;
        for (const auto &[set, option] : flags) {
            if (set) {
                options |= option;
            }
        }
"""),
]),
('FixItExporter.cpp', [
("""    if (Hint.CodeToInsert.empty()) {
        if (Hint.InsertFromRange.isValid()) {
            clang::SourceLocation b(Hint.InsertFromRange.getBegin());
            clang::SourceLocation _e(Hint.InsertFromRange.getEnd());
            if (b.isMacroID()) {
                b = SourceMgr.getSpellingLoc(b);
            }
            if (_e.isMacroID()) {
                _e = SourceMgr.getSpellingLoc(_e);
            }
            clang::SourceLocation e(clang::Lexer::getLocForEndOfToken(_e, 0, SourceMgr, LangOpts));
            StringRef Text(SourceMgr.getCharacterData(b), SourceMgr.getCharacterData(e) - SourceMgr.getCharacterData(b));
            return {SourceMgr, Hint.RemoveRange, Text};
        }
        return {SourceMgr, Hint.RemoveRange, ""};
    }
    return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
""", """    if (!Hint.CodeToInsert.empty()) {
        return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
    }
    if (!Hint.InsertFromRange.isValid()) {
        return {SourceMgr, Hint.RemoveRange, ""};
    }

    const auto spelling = [this](clang::SourceLocation loc) {
        return loc.isMacroID() ? SourceMgr.getSpellingLoc(loc) : loc;
    };
    const clang::SourceLocation b = spelling(Hint.InsertFromRange.getBegin());
    const clang::SourceLocation lastToken = spelling(Hint.InsertFromRange.getEnd());
    const clang::SourceLocation e = clang::Lexer::getLocForEndOfToken(lastToken, 0, SourceMgr, LangOpts);
    const char *text = SourceMgr.getCharacterData(b);
    return {SourceMgr, Hint.RemoveRange, StringRef(text, SourceMgr.getCharacterData(e) - text)};
"""),
("""    // Convert and record warning diagnostics and their notes
    if (DiagLevel == DiagnosticsEngine::Warning) {
        auto ToolingDiag = ConvertDiagnostic(Info);
        for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
            const FixItHint &Hint = Info.getFixItHint(Idx);
            const auto replacement = ConvertFixIt(Hint);
""", """    // Convert and record warning diagnostics and their notes
    if (DiagLevel == DiagnosticsEngine::Warning) {
        auto ToolingDiag = ConvertDiagnostic(Info);
        for (const FixItHint &Hint : Info.getFixItHints()) {
            const auto replacement = ConvertFixIt(Hint);
"""),
("""            const auto FileName = SourceMgr.getFilename(Info.getLocation());
            llvm::errs() << "Handling Fixit #" << Idx << " for " << FileName.str() << "\\n";
""", """            const auto FileName = SourceMgr.getFilename(Info.getLocation());
            llvm::errs() << "Handling Fixit for " << FileName.str() << "\\n";
"""),
("""            llvm::Error error = Replacements.add(ConvertFixIt(Hint));
            if (error) {
""", """            if (llvm::Error error = Replacements.add(replacement)) {
"""),
]),
('checkmanager.cpp', [
("""    for (const auto &rc : m_registeredChecks) {
        if (rc.name == name) {
            return rc.factory();
        }
    }

    llvm::errs() << "Invalid check name " << name << "\\n";
    return nullptr;
""", """    const auto it = checkForName(m_registeredChecks, name);
    if (it == m_registeredChecks.cend()) {
        llvm::errs() << "Invalid check name " << name << "\\n";
        return nullptr;
    }
    return it->factory();
"""),
("""    for (const auto &registeredCheck : m_registeredChecks) {
        auto it = m_fixitsByCheckName.find(registeredCheck.name);
        if (it != m_fixitsByCheckName.end()) {
            const auto &fixits = (*it).second;
            for (const RegisteredFixIt &fixit : fixits) {
                if (fixit.name == fixitName) {
                    return (*it).first;
                }
            }
        }
    }
""", """    for (const auto &registeredCheck : m_registeredChecks) {
        for (const RegisteredFixIt &fixit : availableFixIts(registeredCheck.name)) {
            if (fixit.name == fixitName) {
                return registeredCheck.name;
            }
        }
    }
"""),
("""    RegisteredCheck::List checks = m_registeredChecks;

    checks.erase(remove_if(checks.begin(),
                           checks.end(),
                           [maxLevel](const RegisteredCheck &r) {
                               return r.level > maxLevel;
                           }),
                 checks.end());

    return checks;
""", """    RegisteredCheck::List checks;
    for (const RegisteredCheck &check : m_registeredChecks) {
        if (check.level <= maxLevel) {
            checks.push_back(check);
        }
    }
    return checks;
"""),
("""    std::copy(disabledChecksThroughEnv.begin(), disabledChecksThroughEnv.end(), std::back_inserter(userDisabledChecks));
""", """    userDisabledChecks.insert(userDisabledChecks.end(), disabledChecksThroughEnv.begin(), disabledChecksThroughEnv.end());
"""),
("""    RegisteredCheck::List checksFromEnv = requestedChecksThroughEnv(/*by-ref*/ userDisabledChecks);
    copy(checksFromEnv.cbegin(), checksFromEnv.cend(), back_inserter(result));
""", """    for (const RegisteredCheck &check : requestedChecksThroughEnv(/*by-ref*/ userDisabledChecks)) {
        result.push_back(check);
    }
"""),
("""    RegisteredCheck::List checksFromRequestedLevel = checksForLevel(requestedLevel);
    std::ranges::copy(checksFromRequestedLevel, std::back_inserter(result));
    clazy::sort""", """    std::ranges::copy(checksForLevel(requestedLevel), std::back_inserter(result));
    clazy::sort"""),
("""    RegisteredCheck::List result;
    if (level > CheckLevelUndefined && level <= MaxCheckLevel) {
        std::ranges::copy_if(m_registeredChecks, std::back_inserter(result), [&](const RegisteredCheck &r) {
            return r.level <= level;
        });
    }

    return result;
""", """    if (level <= CheckLevelUndefined || level > MaxCheckLevel) {
        return {};
    }

    return availableChecks(static_cast<CheckLevel>(level));
"""),
("""    for (auto &name : checkNames) {
        list.erase(remove_if(list.begin(),
                             list.end(),
                             [name](const RegisteredCheck &c) {
                                 return c.name == name;
                             }),
                   list.end());
    }
""", """    std::erase_if(list, [&checkNames](const RegisteredCheck &c) {
        return std::ranges::find(checkNames, c.name) != checkNames.end();
    });
"""),
("""        auto it = checkForName(m_registeredChecks, name);
        if (it == m_registeredChecks.cend()) {
            // Unknown, but might be a fixit name
            const std::string checkName = checkNameForFixIt(name);
            auto it = checkForName(m_registeredChecks, checkName);
            const bool checkDoesntExist = it == m_registeredChecks.cend();
            if (checkDoesntExist) {
                if (clazy::startsWith(name, s_levelPrefix) && name.size() == strlen(s_levelPrefix) + 1) {
                    auto lastChar = name.back();
                    const int digit = lastChar - '0';
                    if (digit > CheckLevelUndefined && digit <= MaxCheckLevel) {
                        RegisteredCheck::List levelChecks = checksForLevel(digit);
                        std::ranges::copy(levelChecks, std::back_inserter(result));
                    } else {
                        llvm::errs() << "Invalid level: " << name << "\\n";
                    }
                } else {
                    if (clazy::startsWith(name, "no-")) {
                        std::string checkName = name;
                        checkName.erase(0, 3);
                        if (checkExists(checkName)) {
                            userDisabledChecks.push_back(checkName);
                        } else {
                            llvm::errs() << "Invalid check to disable: " << name << "\\n";
                        }
                    } else {
                        llvm::errs() << "Invalid check: " << name << "\\n";
                    }
                }
            } else {
                result.push_back(*it);
            }
            continue;
        }
        result.push_back(*it);
    }
""", """        auto it = checkForName(m_registeredChecks, name);
        if (it == m_registeredChecks.cend()) {
            // Unknown, but might be a fixit name
            it = checkForName(m_registeredChecks, checkNameForFixIt(name));
        }
        if (it != m_registeredChecks.cend()) {
            result.push_back(*it);
            continue;
        }

        if (clazy::startsWith(name, s_levelPrefix) && name.size() == strlen(s_levelPrefix) + 1) {
            const int digit = name.back() - '0';
            if (digit <= CheckLevelUndefined || digit > MaxCheckLevel) {
                llvm::errs() << "Invalid level: " << name << "\\n";
                continue;
            }
            for (const RegisteredCheck &levelCheck : checksForLevel(digit)) {
                result.push_back(levelCheck);
            }
        } else if (clazy::startsWith(name, "no-")) {
            const std::string disabledCheck = name.substr(3);
            if (checkExists(disabledCheck)) {
                userDisabledChecks.push_back(disabledCheck);
            } else {
                llvm::errs() << "Invalid check to disable: " << name << "\\n";
            }
        } else {
            llvm::errs() << "Invalid check: " << name << "\\n";
        }
    }
"""),
("""    const auto *checksAsErrosEnv = getenv("CLAZY_CHECKS_AS_ERRORS");

    if (checksAsErrosEnv) {
        auto checkNames = clazy::splitString(checksAsErrosEnv, ',');
        std::vector<std::string> result;

        // Check whether all supplied check names are valid
        for (const std::string &name : checkNames) {
            auto it = std::ranges::find_if(m_registeredChecks, [&name](const RegisteredCheck &check) {
                return check.name == name;
            });
            if (it == m_registeredChecks.end()) {
                llvm::errs() << "Invalid check: " << name << '\\n';
            } else {
                result.emplace_back(name);
            }
        }
        return result;
    }
    return {};
""", """    const char *env = getenv("CLAZY_CHECKS_AS_ERRORS");
    if (!env) {
        return {};
    }

    // Check whether all supplied check names are valid
    std::vector<std::string> result;
    for (const std::string &name : clazy::splitString(env, ',')) {
        if (checkExists(name)) {
            result.push_back(name);
        } else {
            llvm::errs() << "Invalid check: " << name << '\\n';
        }
    }
    return result;
"""),
]),
]

R = [
('SuppressionManager.cpp', [
("""    const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
    if (suppressions.skipNextLine.count(lineNumber) > 0) {
        return true;
    }
    if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
        return true;

    const auto [wildcardsBegin, wildcardsEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
    for (auto it = wildcardsBegin; it != wildcardsEnd; ++it) {
        if (it->second.match(checkName)) {
            return true;
        }
    }

    for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
        if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
            if (rangeSuppression.checksToSkipWildcard.empty()
                || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
                       return regex.match(checkName);
                   })) {
                return true;
            }
        }
    }

    return false;
}
""", """    return isLineSuppressed(suppressions, sm.getSpellingLineNumber(loc), checkName);
}
"""),
("""SuppressionManager::SuppressionManager() = default;
""", """static bool matchesAny(const std::vector<llvm::Regex> &wildcards, const std::string &checkName)
{
    for (const llvm::Regex &wildcard : wildcards) {
        if (wildcard.match(checkName)) {
            return true;
        }
    }
    return false;
}

static bool isLineSuppressed(const SuppressionManager::Suppressions &suppressions, SuppressionManager::LineNumber line, const std::string &checkName)
{
    const bool everything = suppressions.skipNextLine.find(line) != suppressions.skipNextLine.end();
    if (everything || suppressions.checksToSkipByLine.count({line, checkName})) {
        return true;
    }

    for (auto [it, end] = suppressions.checkWildcardsToSkipByLine.equal_range(line); it != end; ++it) {
        if (it->second.match(checkName)) {
            return true;
        }
    }

    return std::any_of(suppressions.checkWildcardsRanges.begin(), suppressions.checkWildcardsRanges.end(), [&](const auto &range) {
        if (line < range.begin || line > range.end) {
            return false;
        }
        return range.checksToSkipWildcard.empty() || matchesAny(range.checksToSkipWildcard, checkName);
    });
}

static void recordClazyComment(const std::string &comment, size_t startIdx, SuppressionManager::LineNumber lineNumber, SuppressionManager::Suppressions &suppressions)
{
    static const std::regex rx_all("clazy:excludeall=([^\\\\s]+)");
    static const std::regex rx_current("clazy:exclude=([^\\\\s]+)");
    static const std::regex rx_next("clazy:exclude-next-line=([^\\\\s]+)");

    const auto startIt = comment.begin() + startIdx;
    const auto endIt = comment.end();
    std::smatch match;
    if (std::regex_search(startIt, endIt, match, rx_all)) {
        for (const std::string &check : clazy::splitString(match[1], ',')) {
            suppressions.checksToSkip.insert(check);
        }
        return;
    }

    unsigned line = lineNumber;
    if (!std::regex_search(startIt, endIt, match, rx_current)) {
        if (!std::regex_search(startIt, endIt, match, rx_next)) {
            return;
        }
        ++line;
    }

    for (const std::string &checkName : clazy::splitString(match[1], ',')) {
        suppressions.checksToSkipByLine.emplace(line, checkName);
    }
}

SuppressionManager::SuppressionManager() = default;
"""),
("""        static const std::regex rx_all("clazy:excludeall=([^\\\\s]+)");
        static const std::regex rx_current("clazy:exclude=([^\\\\s]+)");
        static const std::regex rx_next("clazy:exclude-next-line=([^\\\\s]+)");

        const auto startIt = comment.begin() + startIdx;
        const auto endIt = comment.end();
        std::smatch match;
        if (std::regex_search(startIt, endIt, match, rx_all)) {
            std::vector<std::string> checks = clazy::splitString(match[1], ',');
            suppressions.checksToSkip.insert(checks.cbegin(), checks.cend());
        } else if (std::regex_search(startIt, endIt, match, rx_current)) {
            std::vector<std::string> checks = clazy::splitString(match[1], ',');
            for (const std::string &checkName : checks) {
                suppressions.checksToSkipByLine.insert(LineAndCheckName(lineNumber, checkName));
            }
        } else if (std::regex_search(startIt, endIt, match, rx_next)) {
            std::vector<std::string> checks = clazy::splitString(match[1], ',');
            for (const std::string &checkName : checks) {
                suppressions.checksToSkipByLine.insert(LineAndCheckName(lineNumber + 1, checkName));
            }
        }
""", """        recordClazyComment(comment, startIdx, lineNumber, suppressions);
"""),
("""    Token token;
    bool isLastToken = false;
    while (!isLastToken) {
        isLastToken = lexer.LexFromRawLexer(token);
        if (token.getKind() != tok::comment) {
            continue;
        }
""", """    Token token;
    for (bool atEnd = false; !atEnd;) {
        atEnd = lexer.LexFromRawLexer(token);
        if (token.isNot(tok::comment)) {
            continue;
        }
"""),
]),
('Clazy.cpp', [
("""    auto astConsumer = std::make_unique<ClazyASTConsumer>(m_context);
    if (clazy::VisitHelper::shouldCheckFile(InFile)) {
        for (const auto &requestedCheck : m_checks) {
            auto *check = requestedCheck.factory();
            check->m_context = m_context;
            if (requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) {
                check->enablePreProcessorCallbacks(ci.getPreprocessor());
            }
            astConsumer->addCheck({check, requestedCheck});
        }
    }

    return astConsumer;
""", """    auto astConsumer = std::make_unique<ClazyASTConsumer>(m_context);
    addChecks(*astConsumer, m_checks, m_context, ci.getPreprocessor(), InFile);
    return astConsumer;
"""),
("""    auto *astConsumer = new ClazyASTConsumer(context);
    if (!clazy::VisitHelper::shouldCheckFile(InFile)) {
        return std::unique_ptr<ASTConsumer>(astConsumer);
    }

    for (const auto &requestedCheck : requestedChecks) {
        auto *check = requestedCheck.factory();
        check->m_context = context;
        if (requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) {
            check->enablePreProcessorCallbacks(ci.getPreprocessor());
        }
        astConsumer->addCheck({check, requestedCheck});
    }

    return std::unique_ptr<ASTConsumer>(astConsumer);
""", """    auto astConsumer = std::make_unique<ClazyASTConsumer>(context);
    addChecks(*astConsumer, requestedChecks, context, ci.getPreprocessor(), InFile);
    return astConsumer;
"""),
("""ClazyASTAction::ClazyASTAction()
""", """static void addChecks(ClazyASTConsumer &consumer, const RegisteredCheck::List &checks, ClazyContext *context, Preprocessor &pp, StringRef file)
{
    if (!clazy::VisitHelper::shouldCheckFile(file)) {
        return;
    }

    for (const RegisteredCheck &registered : checks) {
        CheckBase *check = registered.factory();
        check->m_context = context;
        const bool wantsPreprocessor = (registered.options & RegisteredCheck::Option_PreprocessorCallbacks) != 0;
        if (wantsPreprocessor) {
            check->enablePreProcessorCallbacks(pp);
        }
        consumer.addCheck(std::make_pair(check, registered));
    }
}

ClazyASTAction::ClazyASTAction()
"""),
("""    if (parseArgument("only-qt", args)) {
        m_options |= ClazyContext::ClazyOption_OnlyQt;
    }

    if (parseArgument("qt-developer", args)) {
        m_options |= ClazyContext::ClazyOption_QtDeveloper;
    }

    if (parseArgument("visit-implicit-code", args)) {
        m_options |= ClazyContext::ClazyOption_VisitImplicitCode;
    }

    if (parseArgument("ignore-included-files", args)) {
        m_options |= ClazyContext::ClazyOption_IgnoreIncludedFiles;
    }
""", """    const auto takeFlag = [&args, this](const char *name, ClazyContext::ClazyOption option) {
        m_options |= parseArgument(name, args) ? option : 0;
    };
    takeFlag("ignore-included-files", ClazyContext::ClazyOption_IgnoreIncludedFiles);
    takeFlag("visit-implicit-code", ClazyContext::ClazyOption_VisitImplicitCode);
    takeFlag("qt-developer", ClazyContext::ClazyOption_QtDeveloper);
    takeFlag("only-qt", ClazyContext::ClazyOption_OnlyQt);
"""),
("""    const char *result = getenv(name);
    if (result) {
        return result;
    }
    return "";
""", """    const char *value = std::getenv(name);
    return value ? std::string(value) : std::string();
"""),
("""    std::vector<std::string> checks;
    checks.push_back(m_checkList);
    const RegisteredCheck::List requestedChecks = cm->requestedChecks(checks);
""", """    std::vector<std::string> checks{m_checkList};
    const RegisteredCheck::List requestedChecks = cm->requestedChecks(checks);
"""),
]),
('ClazyContext.cpp', [
("""        ClazyContext::LineFilterEntry entry;
        entry.fileName = name->str();

        if (const llvm::json::Array *lines = fileObject->getArray("lines")) {
            for (const llvm::json::Value &rangeValue : *lines) {
                const llvm::json::Array *range = rangeValue.getAsArray();
                if (!range || range->size() != 2) {
                    continue;
                }
                std::optional<int64_t> start = (*range)[0].getAsInteger();
                std::optional<int64_t> end = (*range)[1].getAsInteger();
                if (start && end) {
                    entry.lineRanges.push_back({static_cast<unsigned>(*start), static_cast<unsigned>(*end)});
                }
            }
        }

        result.push_back(std::move(entry));
""", """        result.push_back({name->str(), parseLineRanges(fileObject->getArray("lines"))});
"""),
("""std::vector<ClazyContext::LineFilterEntry> parseLineFilter(""", """std::optional<ClazyContext::LineRange> parseLineRange(const llvm::json::Value &value)
{
    const llvm::json::Array *range = value.getAsArray();
    if (!range || range->size() != 2) {
        return std::nullopt;
    }

    const std::optional<int64_t> first = range->front().getAsInteger();
    const std::optional<int64_t> last = range->back().getAsInteger();
    if (!first.has_value() || !last.has_value()) {
        return std::nullopt;
    }

    return ClazyContext::LineRange{static_cast<unsigned>(first.value()), static_cast<unsigned>(last.value())};
}

std::vector<ClazyContext::LineRange> parseLineRanges(const llvm::json::Array *lines)
{
    std::vector<ClazyContext::LineRange> ranges;
    if (!lines) {
        return ranges;
    }

    for (const llvm::json::Value &value : *lines) {
        if (const auto range = parseLineRange(value)) {
            ranges.push_back(*range);
        }
    }
    return ranges;
}

std::vector<ClazyContext::LineFilterEntry> parseLineFilter("""),
("""    for (const LineFilterEntry &entry : m_lineFilter) {
        // clang-tidy matches by filename suffix, which copes with relative paths from a diff.
        if (!fileName.ends_with(entry.fileName)) {
            continue;
        }

        if (entry.lineRanges.empty()) {
            return true; // Whole file is whitelisted
        }

        for (const LineRange &range : entry.lineRanges) {
            if (line >= range.start && line <= range.end) {
                return true;
            }
        }
    }

    return false; // A filter is active and this file/line is not part of it
""", """    // clang-tidy matches by filename suffix, which copes with relative paths from a diff.
    return std::any_of(m_lineFilter.cbegin(), m_lineFilter.cend(), [&fileName, line](const LineFilterEntry &entry) {
        const bool wholeFile = entry.lineRanges.empty();
        return fileName.ends_with(entry.fileName) && (wholeFile || std::any_of(entry.lineRanges.cbegin(), entry.lineRanges.cend(), [line](const LineRange &range) {
            return !(line < range.start || range.end < line);
        }));
    });
"""),
("""    for (const auto &s : m_pp.Macros) {
        if (s.first == "QT_CORE_LIB") {
            return true;
        }
    }
    return false;
""", """    return std::find_if(m_pp.Macros.begin(), m_pp.Macros.end(), [](const auto &macro) {
        return macro.first == "QT_CORE_LIB";
    }) != m_pp.Macros.end();
"""),
]),
('ClazyContext.h', [
("""        ClazyContext::OptionalFileEntryRef file;
        if (ignoreDirsRegex) {
            const bool matches = fileMatchesLoc(ignoreDirsRegex, loc, file);
            if (matches) {
                return true;
            }
        }
""", """        ClazyContext::OptionalFileEntryRef file;
        if (fileMatchesLoc(ignoreDirsRegex, loc, file)) {
            return true;
        }
"""),
]),
('checkbase.cpp', [
("""    if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
        return true;
    }

    if (m_context->shouldIgnoreFile(loc)) {
        return true;
    }

    return !m_context->passesLineFilter(loc);
""", """    const ClazyContext &context = *m_context;
    return !context.passesLineFilter(loc) || context.shouldIgnoreFile(loc) || context.suppressionManager.isSuppressed(m_name, loc, sm(), lo());
"""),
("""    PresumedLoc ploc = sm().getPresumedLoc(loc);
    for (auto rawLoc : m_emittedWarningsInMacro) {
        SourceLocation l = SourceLocation::getFromRawEncoding(rawLoc);
        PresumedLoc p = sm().getPresumedLoc(l);
        if (Utils::presumedLocationsEqual(p, ploc)) {
            return true;
        }
    }

    return false;
""", """    const PresumedLoc ploc = sm().getPresumedLoc(loc);
    return std::ranges::any_of(m_emittedWarningsInMacro, [&](unsigned raw) {
        return Utils::presumedLocationsEqual(sm().getPresumedLoc(SourceLocation::getFromRawEncoding(raw)), ploc);
    });
"""),
("""    for (const auto &l : queuedManualInterventionWarnings) {
        if (isFilteredOut(l.first)) {
            continue;
        }

        std::string msg("FixIt failed, requires manual intervention: ");
        if (!l.second.empty()) {
            msg += ' ' + l.second;
        }

        reallyEmitWarning(l.first, msg + tag(), {});
    }
""", """    for (const auto &[where, what] : queuedManualInterventionWarnings) {
        if (!isFilteredOut(where)) {
            const std::string detail = what.empty() ? "" : ' ' + what;
            reallyEmitWarning(where, "FixIt failed, requires manual intervention: " + detail + tag(), {});
        }
    }
"""),
("""    auto severity = (m_context->treatAsError(m_name)
                     || (m_context->astContext && m_context->astContext->getDiagnostics().getWarningsAsErrors() && !m_context->userDisabledWError()))
        ? DiagnosticIDs::Error
        : DiagnosticIDs::Warning;
""", """    auto severity = DiagnosticIDs::Warning;
    if (m_context->treatAsError(m_name)) {
        severity = DiagnosticIDs::Error;
    } else if (const auto *ast = m_context->astContext; ast && !m_context->userDisabledWError()) {
        severity = ast->getDiagnostics().getWarningsAsErrors() ? DiagnosticIDs::Error : severity;
    }
"""),
]),
]

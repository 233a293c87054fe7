CHECKS = ['P13']
X = 'ClazyContext.cpp'
H = 'ClazyContext.h'
S = 'ClazyStandaloneMain.cpp'
C = 'Clazy.cpp'
T = 'ClazyClangTidyModule.cpp'
M = [
 (X, "    if (!headerFilter.empty()) {\n        headerFilterRegex = std::make_unique<llvm::Regex>(headerFilter);", "    if (!headerFilter.empty()) {\n        headerFilterRegex = std::make_unique<llvm::Regex>(headerFilter, llvm::Regex::IgnoreCase);", 'P13'),
 (X, "ignoreDirsRegex = std::make_unique<llvm::Regex>(ignoreDirs);", "ignoreDirsRegex = std::make_unique<llvm::Regex>(headerFilter);", 'P13'),
 (X, "    if (!lineFilter.empty()) {", "    if (!lineFilter.empty() && !isClangTidy && headerFilter.empty()) {", 'P13'),
 (X, "getenv(\"CLAZY_EXTRA_OPTIONS\"), ','", "getenv(\"CLAZY_EXTRA_OPTIONS\"), ';'", 'P13'),
 (X, "getName().str() + \".clazy.yaml\"", "getName().str() + \".yaml\"", 'P13'),
 (X, "if (!range || range->size() != 2) {\n                    continue;", "if (!range || range->size() != 2) {\n                    break;", 'P13'),
 (X, "            continue;\n        }\n\n        ClazyContext::LineFilterEntry entry;", "            break;\n        }\n\n        ClazyContext::LineFilterEntry entry;", 'P13'),
 (X, "std::optional<int64_t> end = (*range)[1].getAsInteger();", "std::optional<int64_t> end = (*range)[0].getAsInteger();", 'P13'),
 (X, "                if (start && end) {", "                if (start && end && *start < *end) {", 'P13'),
 (X, "fileObject->getArray(\"lines\")", "fileObject->getArray(\"line\")", 'P13'),
 (X, "    if (exportFixesEnabled() && context) {\n        if (exportFixesFilename.empty()) {", "    if (exportFixesEnabled() && context) {\n        if (translationUnitPaths.empty()) {", 'P13'),
 (X, "if (s.first == \"QT_CORE_LIB\") {\n            return true;\n        }", "return s.first == \"QT_CORE_LIB\";", 'P13'),
 (X, "return !m_pp.ImplicitPCHInclude.empty();", "return !m_pp.PCHThroughHeader.empty();", 'P13'),
 (X, "getenv(\"CLAZY_NO_WERROR\") != nullptr)", "getenv(\"CLAZY_NO_WERROR\") == nullptr)", 'P13'),
 (X, "m_checksPromotedToErrors(CheckManager::instance()->checksAsErrors())", "m_checksPromotedToErrors()", 'P13'),
 (H, "return options & ClazyOption_QtDeveloper;", "return options & (ClazyOption_QtDeveloper | ClazyOption_OnlyQt);", 'P13'),
 (H, "ClazyOption_VisitImplicitCode = 16,", "ClazyOption_VisitImplicitCode = 12,", 'P13'),
 (H, "return options & ClazyOption_IgnoreIncludedFiles;", "return options & ClazyOption_VisitImplicitCode;", 'P13'),
 (S, "if (!s_exportFixes.getValue().empty()) {", "if (!s_exportFixes.getValue().empty() && m_paths.size() == 1) {", 'P13'),
 (S, "if (s_qtDeveloper.getValue()) {\n            options |= ClazyContext::ClazyOption_QtDeveloper;\n        }\n\n        if (s_onlyQt", "if (s_qtDeveloper.getValue()) {\n            options |= ClazyContext::ClazyOption_QtDeveloper;\n        }\n\n        else if (s_onlyQt", 'P13'),
 (S, "options |= ClazyContext::ClazyOption_IgnoreIncludedFiles;", "options = ClazyContext::ClazyOption_IgnoreIncludedFiles;", 'P13'),
 (S, "s_headerFilter.getValue(),\n                                                          s_ignoreDirs.getValue(),", "s_ignoreDirs.getValue(),\n                                                          s_headerFilter.getValue(),", 'P13'),
 (S, "s_headerFilter(\"header-filter\",", "s_headerFilter(\"headers\",", 'P13'),
 (C, "ignoreDirs.empty() ? getEnvVariable(\"CLAZY_IGNORE_DIRS\") : ignoreDirs", "ignoreDirs.empty() ? getEnvVariable(\"CLAZY_HEADER_FILTER\") : ignoreDirs", 'P13'),
 (C, "headerFilter.empty() ? getEnvVariable(\"CLAZY_HEADER_FILTER\") : headerFilter", "!getEnvVariable(\"CLAZY_HEADER_FILTER\").empty() ? getEnvVariable(\"CLAZY_HEADER_FILTER\") : headerFilter", 'P13'),
 (C, "checkList.empty() ? \"level1\" : checkList", "checkList.empty() ? \"level0\" : checkList", 'P13'),
 (C, ", m_lineFilter(lineFilter)", ", m_lineFilter()", 'P13'),
 (C, "                                     m_headerFilter,\n                                     m_ignoreDirs,", "                                     m_ignoreDirs,\n                                     m_headerFilter,", 'P13'),
 (C, "                                     m_lineFilter,\n", "                                     std::string(),\n", 'P13'),
 (C, "    if (parseArgument(\"qt-developer\", args)) {", "    else if (parseArgument(\"qt-developer\", args)) {", 'P13'),
 (C, "    if (parseArgument(\"only-qt\", args)) {", "    if (parseArgument(\"qt-only\", args)) {", 'P13'),
 (C, "m_options |= ClazyContext::ClazyOption_IgnoreIncludedFiles;", "m_options |= ClazyContext::ClazyOption_VisitImplicitCode;", 'P13'),
 (C, "        m_checks = m_checkManager->requestedChecks(args);", "        m_checkManager->requestedChecks(args);", 'P13'),
 (C, "parseArgument(\"export-fixes\", args) || getenv(\"CLAZY_EXPORT_FIXES\")", "parseArgument(\"export-fixes\", args)", 'P13'),
 (T, "clazyContext->", "clazyContext->", ''),
 # equivalents
 (X, "    for (const auto &s : m_pp.Macros) {\n        if (s.first == \"QT_CORE_LIB\") {\n            return true;\n        }\n    }\n    return false;", "    return std::any_of(m_pp.Macros.begin(), m_pp.Macros.end(), [](const auto &s) { return s.first == \"QT_CORE_LIB\"; });", ''),
 (X, "    for (const llvm::json::Value &fileValue : *files) {", "    for (size_t i = 0; i < files->size(); ++i) {\n        const llvm::json::Value &fileValue = (*files)[i];", ''),
 (X, "                if (!range || range->size() != 2) {\n                    continue;\n                }\n", "                const bool usable = range && range->size() == 2;\n                if (!usable) {\n                    continue;\n                }\n", ''),
 (X, "        ClazyContext::LineFilterEntry entry;\n        entry.fileName = name->str();\n", "        ClazyContext::LineFilterEntry entry{name->str(), {}};\n", ''),
 (X, "        result.push_back(std::move(entry));", "        result.emplace_back(entry);", ''),
 (X, "entry.lineRanges.push_back({static_cast<unsigned>(*start), static_cast<unsigned>(*end)});", "ClazyContext::LineRange r;\n                    r.start = static_cast<unsigned>(*start);\n                    r.end = static_cast<unsigned>(*end);\n                    entry.lineRanges.push_back(r);", ''),
 (X, "    if (exportFixesEnabled() && context) {\n        if (exportFixesFilename.empty()) {", "    if (context && exportFixesEnabled()) {\n        const bool noName = exportFixesFilename.empty();\n        if (noName) {", ''),
 (X, "    if (!ignoreDirs.empty()) {\n        ignoreDirsRegex = std::make_unique<llvm::Regex>(ignoreDirs);\n    }\n", "    if (ignoreDirs != \"\") {\n        ignoreDirsRegex.reset(new llvm::Regex(ignoreDirs));\n    }\n", ''),
 (S, "        if (s_qtDeveloper.getValue()) {\n            options |= ClazyContext::ClazyOption_QtDeveloper;\n        }\n", "        auto set = [&options](bool on, ClazyContext::ClazyOption o) {\n            if (on) {\n                options |= o;\n            }\n        };\n        set(s_qtDeveloper.getValue(), ClazyContext::ClazyOption_QtDeveloper);\n", ''),
 (S, "        if (s_qtDeveloper.getValue()) {\n            options |= ClazyContext::ClazyOption_QtDeveloper;\n        }\n", "        options |= s_qtDeveloper.getValue() ? ClazyContext::ClazyOption_QtDeveloper : 0;\n", ''),
 (S, "        if (s_qtDeveloper.getValue()) {", "        if (s_qtDeveloper) {", ''),
 (S, "        if (!s_exportFixes.getValue().empty()) {", "        const std::string fixes = s_exportFixes;\n        if (!fixes.empty()) {", ''),
 (S, "        return std::make_unique<ClazyStandaloneASTAction>(s_checks.getValue(),", "        const std::string checks = s_checks.getValue();\n        return std::make_unique<ClazyStandaloneASTAction>(checks,", ''),
 (C, "    checks.push_back(m_checkList);", "    checks.emplace_back(m_checkList);", ''),
 (C, "    std::vector<std::string> checks;\n    checks.push_back(m_checkList);", "    std::vector<std::string> checks{m_checkList};", ''),
 (C, "    if (parseArgument(\"only-qt\", args)) {\n        m_options |= ClazyContext::ClazyOption_OnlyQt;\n    }\n", "    const bool onlyQt = parseArgument(\"only-qt\", args);\n    if (onlyQt) {\n        m_options = m_options | ClazyContext::ClazyOption_OnlyQt;\n    }\n", ''),
 (C, "    if (parseArgument(\"export-fixes\", args) || getenv(\"CLAZY_EXPORT_FIXES\")) {", "    const bool byEnv = getenv(\"CLAZY_EXPORT_FIXES\") != nullptr;\n    if (parseArgument(\"export-fixes\", args) || byEnv) {", ''),
 (C, "    , m_headerFilter(headerFilter.empty() ? getEnvVariable(\"CLAZY_HEADER_FILTER\") : headerFilter)", "    , m_headerFilter(!headerFilter.empty() ? headerFilter : getEnvVariable(\"CLAZY_HEADER_FILTER\"))", ''),
 (H, "return options & ClazyOption_QtDeveloper;", "return (options & ClazyOption_QtDeveloper) != 0;", ''),
 (H, "return options & ClazyOption_QtDeveloper;", "return (options & ClazyOption_QtDeveloper) == ClazyOption_QtDeveloper;", ''),
 (H, "return clazy::contains(extraOptions, optionName);", "return std::find(extraOptions.cbegin(), extraOptions.cend(), optionName) != extraOptions.cend();", ''),
]

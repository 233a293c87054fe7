CHECKS = ['P19']
L0, L1, L2, MA = ('checks/level0/', 'checks/level1/', 'checks/level2/', 'checks/manuallevel/')
M = [
 # temporaries
 (L0 + 'qgetenv.cpp', 'StringRef methodname = clazy::name(method);', 'StringRef methodname = method->getNameAsString();', 'P19'),
 (L0 + 'lowercase-qml-type-name.cpp', 'StringRef name = clazy::name(func);', 'StringRef name = func->getQualifiedNameAsString();', 'P19'),
 (L0 + 'unused-non-trivial-variable.cpp', 'StringRef typeName = clazy::name(record);', 'const std::string &full = record->getNameAsString(); StringRef typeName = full;', ''),
 (L0 + 'unused-non-trivial-variable.cpp', 'StringRef className = clazy::name(record);', 'const auto &className = StringRef(record->getNameAsString());', 'P19'),
 ('SuppressionManager.cpp', 'StringRef sanitizedCheckName = llvm::StringRef(split).trim();', 'StringRef sanitizedCheckName = StringRef(split + "").trim();', 'P19'),
 ('SuppressionManager.cpp', 'StringRef sanitizedCheckName = llvm::StringRef(split).trim();', 'const std::string copy = split; StringRef sanitizedCheckName = llvm::StringRef(copy).trim();', ''),
 ('ClazyContext.cpp', 'const llvm::StringRef fileName(ploc.getFilename());', 'const llvm::StringRef fileName(std::string(ploc.getFilename()));', 'P19'),
 ('ClazyContext.cpp', 'const llvm::StringRef fileName(ploc.getFilename());', 'const char *const raw = std::string(ploc.getFilename()).c_str(); const llvm::StringRef fileName(raw);', 'P19'),
 ('ClazyContext.cpp', 'const llvm::StringRef fileName(ploc.getFilename());', 'const std::string name = ploc.getFilename(); const llvm::StringRef fileName(name);', ''),
 (L0 + 'no-module-include.cpp', 'llvm::StringRef fileContent = fileBuffer.get()->getBuffer();', 'llvm::StringRef fileContent = fileBuffer.get()->getBuffer().str();', 'P19'),
 ('StringUtils.h', '        return decl->getName();\n', '        return decl->getNameAsString();\n', 'P19'),
 ('StringUtils.h', 'inline llvm::StringRef name(const clang::CXXConstructorDecl *decl)\n{\n    return name(decl->getParent());', 'inline llvm::StringRef name(const clang::CXXConstructorDecl *decl)\n{\n    std::string n = decl->getParent()->getNameAsString();\n    return n;', 'P19'),
 (L1 + 'range-loop-detach.cpp', 'llvm::StringRef exprText = getSourceText(containerExpr);', 'llvm::StringRef exprText = getSourceText(containerExpr).str();', 'P19'),
 (L1 + 'foreach.cpp', 'StringRef containerClassName = clazy::name(rootBaseClass);', 'std::string tmp = clazy::name(rootBaseClass).str(); StringRef containerClassName = tmp; tmp.append("x");', 'P19'),
 (L1 + 'foreach.cpp', 'StringRef containerClassName = clazy::name(rootBaseClass);', 'std::string tmp = clazy::name(rootBaseClass).str(); tmp.append(""); StringRef containerClassName = tmp;', ''),
 (L1 + 'detaching-temporary.cpp', 'StringRef functionName = clazy::name(detachingMethod);', 'StringRef functionName; { const std::string s = detachingMethod->getNameAsString(); functionName = s; }', 'P19'),
 (MA + 'isempty-vs-count.cpp', 'StringRef BaseText = getSourceText(baseExpr);', 'StringRef BaseText = StringRef(getSourceText(baseExpr).str()).rtrim();', 'P19'),
 (L0 + 'wrong-qglobalstatic.cpp', 'StringRef name = clazy::name(ctorDecl); name', 'StringRef name = clazy::name(ctorDecl).str(); name', 'P19'),
 (L0 + 'qcolor-from-literal.cpp', 'clang::StringRef color = fullStr.slice(startPos, endPos);', 'clang::StringRef color = fullStr.slice(startPos, endPos).lower();', 'P19'),
 ('FixItExporter.cpp', 'StringRef Text(SourceMgr.getCharacterData(b), SourceMgr.getCharacterData(e) - SourceMgr.getCharacterData(b));', 'StringRef Text(StringRef(SourceMgr.getCharacterData(b), SourceMgr.getCharacterData(e) - SourceMgr.getCharacterData(b)).str());', 'P19'),
 # loops over parts of temporaries
 ('checkmanager.cpp', 'auto it = m_fixitsByCheckName.find(checkName);\n    return it == m_fixitsByCheckName.end() ? RegisteredFixIt::List() : (*it).second;', 'auto copy = m_fixitsByCheckName;\n    auto it = copy.find(checkName);\n    return it == copy.end() ? RegisteredFixIt::List() : (*it).second;', ''),
 ('SuppressionManager.cpp', 'for (const auto &split : clazy::splitString(disableText, \',\')) {', 'for (const auto &split : clazy::splitString(disableText, \',\').front()) {\n (void)split; }\n for (const auto &split : clazy::splitString(disableText, \',\')) {', 'P19'),
 ('SuppressionManager.cpp', 'for (const auto &split : clazy::splitString(disableText, \',\')) {', 'const auto parts = clazy::splitString(disableText, \',\');\n for (const auto &split : parts) {', ''),
 ('SuppressionManager.cpp', 'for (const auto &split : clazy::splitString(disableText, \',\')) {', 'for (const std::string &first = clazy::splitString(disableText, \',\').front(); first.empty();) {}\n for (const auto &split : clazy::splitString(disableText, \',\')) {', 'P19'),
 # rearranged containers
 ('AccessSpecifierManager.cpp', 'it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n', 'm_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n', 'P19'),
 ('AccessSpecifierManager.cpp', '            sorted_insert(specifiers, *it, m_sm);\n            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n', '            const auto next = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n            sorted_insert(specifiers, *it, m_sm);\n            it = next;\n', 'P19'),
 ('AccessSpecifierManager.cpp', '            sorted_insert(specifiers, *it, m_sm);\n            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n', '            const ClazyAccessSpecifier &spec = *it;\n            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n            sorted_insert(specifiers, spec, m_sm);\n', 'P19'),
 ('AccessSpecifierManager.cpp', '            sorted_insert(specifiers, *it, m_sm);\n            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n', '            const ClazyAccessSpecifier spec = *it;\n            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n            sorted_insert(specifiers, spec, m_sm);\n', ''),
 ('AccessSpecifierManager.cpp', '    v.insert(std::upper_bound(v.begin(), v.end(), item, pred), item);', '    const auto pos = std::upper_bound(v.begin(), v.end(), item, pred);\n    v.insert(pos, item);', ''),
 ('AccessSpecifierManager.cpp', '    v.insert(std::upper_bound(v.begin(), v.end(), item, pred), item);', '    const auto pos = std::upper_bound(v.begin(), v.end(), item, pred);\n    v.reserve(v.size() + 1);\n    v.insert(pos, item);', 'P19'),
 ('ClazyClangTidyModule.cpp', '        for (auto &checkPair : m_allChecks) {\n            delete checkPair.first;\n        }\n        m_allChecks.clear();', '        for (auto &checkPair : m_allChecks) {\n            delete checkPair.first;\n            m_allChecks.pop_back();\n        }\n        m_allChecks.clear();', ''),
 ('ClazyClangTidyModule.cpp', '        for (auto &checkPair : m_allChecks) {\n            delete checkPair.first;\n        }\n        m_allChecks.clear();', '        for (auto &checkPair : m_allChecks) {\n            delete checkPair.first;\n        m_allChecks.clear();\n        }\n', 'P19'),
 (L0 + 'qstring-arg.cpp', '            if (checkMultiArgWarningCase(argCalls)) {\n                return;\n            }\n            argCalls.clear();', '            for (auto *a : argCalls) {\n                if (!a) {\n                    argCalls.clear();\n                    break;\n                }\n            }\n            if (checkMultiArgWarningCase(argCalls)) {\n                return;\n            }\n            argCalls.clear();', ''),
 (MA + 'compare-member-check.cpp', '            if (it != classFields.end()) {\n                classFields.erase(it);\n            }', '            if (it != classFields.end()) {\n                classFields.erase(it);\n                if (*it == fieldDecl) { classFields.erase(it); }\n            }', 'P19'),
 (MA + 'compare-member-check.cpp', '            auto it = std::find(classFields.begin(), classFields.end(), fieldDecl);\n\n            if (it != classFields.end()) {\n                classFields.erase(it);\n            }', '            for (auto it = classFields.begin(); it != classFields.end(); ++it) {\n                if (*it == fieldDecl) {\n                    classFields.erase(it);\n                }\n            }', 'P19'),
 (MA + 'compare-member-check.cpp', '            auto it = std::find(classFields.begin(), classFields.end(), fieldDecl);\n\n            if (it != classFields.end()) {\n                classFields.erase(it);\n            }', '            for (auto it = classFields.begin(); it != classFields.end(); ++it) {\n                if (*it == fieldDecl) {\n                    classFields.erase(it);\n                    break;\n                }\n            }', ''),
 (MA + 'compare-member-check.cpp', '            auto it = std::find(classFields.begin(), classFields.end(), fieldDecl);\n\n            if (it != classFields.end()) {\n                classFields.erase(it);\n            }', '            for (auto *f : classFields) {\n                if (f == fieldDecl) {\n                    std::erase(classFields, f);\n                }\n            }', 'P19'),
 ('ContextUtils.cpp', 'methodContexts.erase(it, it + 1);', 'methodContexts.erase(it); (void)*it;', 'P19'),
 ('checkmanager.cpp', '        args.erase(it, it + 1);\n', '        args.erase(it, it + 1);\n        if (it->empty()) { return false; }\n', 'P19'),
 ('checkmanager.cpp', '                        RegisteredCheck::List levelChecks = checksForLevel(digit);\n', '                        const RegisteredCheck &first = checksForLevel(digit).front();\n (void)first; RegisteredCheck::List levelChecks = checksForLevel(digit);\n', 'P19'),
 ('checkmanager.cpp', '    for (const std::string &name : checkNames) {\n        if (checkForName', '    for (const std::string &name : checkNames) {\n        if (name == "all") { checkNames.push_back("level0"); }\n        if (checkForName', 'P19'),
 ('checkmanager.cpp', '    for (const std::string &name : checkNames) {\n        if (checkForName', '    for (size_t i = 0; i < checkNames.size(); ++i) {\n        const std::string name = checkNames[i];\n        if (name == "all") { checkNames.push_back("level0"); }\n        if (checkForName', ''),
 ('checkmanager.cpp', '    for (const std::string &name : checkNames) {\n        if (checkForName', '    for (size_t i = 0; i < checkNames.size(); ++i) {\n        const std::string &name = checkNames[i];\n        if (name == "all") { checkNames.push_back("level0"); }\n        if (checkForName', 'P19'),
 ('checkmanager.cpp', '    std::vector<std::string> checkNames = clazy::splitString(str, \',\');\n    RegisteredCheck::List result;\n', '    std::vector<std::string> checkNames = clazy::splitString(str, \',\');\n    RegisteredCheck::List result;\n    auto last = checkForName(result, checkNames.empty() ? str : checkNames[0]);\n', ''),
 ('checkmanager.cpp', '        result.push_back(*it);\n    }\n\n    removeChecksFromList(result, userDisabledChecks);\n\n    return result;', '        result.push_back(*it);\n    }\n\n    const auto first = checkForName(result, str);\n    removeChecksFromList(result, userDisabledChecks);\n    if (first == result.cend()) { return result; }\n    return result;', 'P19'),
 (L2 + 'copyable-polymorphic.cpp', 'const StringRef className = clazy::name(record);', 'auto nm = [record] { return record->getNameAsString(); };\n const StringRef className = nm();', 'P19'),
 (L2 + 'qstring-allocations.cpp', 'const StringRef str = Lexer::getSourceText(cr, sm, lo);', 'std::vector<std::string> parts; parts.push_back(Lexer::getSourceText(cr, sm, lo).str()); const StringRef str = parts.back(); parts.push_back("x");', 'P19'),
 (L2 + 'qstring-allocations.cpp', 'const StringRef str = Lexer::getSourceText(cr, sm, lo);', 'std::vector<std::string> parts; parts.push_back(Lexer::getSourceText(cr, sm, lo).str()); const StringRef str = parts.back();', ''),
 ('Clazy.cpp', '    auto it = std::ranges::find(args, arg);\n    if (it != args.end()) {\n        args.erase(it);\n        return true;\n    }', '    for (auto &a : args) {\n        if (a == arg) {\n            args.erase(args.begin() + (&a - args.data()));\n            return true;\n        }\n    }', ''),
 ('Clazy.cpp', '    auto it = std::ranges::find(args, arg);\n    if (it != args.end()) {\n        args.erase(it);\n        return true;\n    }', '    bool found = false;\n    for (auto &a : args) {\n        if (a == arg) {\n            args.erase(args.begin() + (&a - args.data()));\n            found = true;\n        }\n    }\n    if (found) {\n        return true;\n    }', 'P19'),
]

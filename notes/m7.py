CHECKS = ['P02']
L0, L1, L2, MA = ('checks/level0/', 'checks/level1/', 'checks/level2/', 'checks/manuallevel/')
M = [
 ('FunctionUtils.h', '!call || call->getNumArgs() <= argIndex', '!call || call->getNumArgs() < argIndex', 'P02'),
 ('StringUtils.cpp', 'index >= func->getNumParams()', 'index > func->getNumParams()', 'P02'),
 ('StringUtils.cpp', '!func || index >= func->getNumParams()', '!func', 'P02'),
 ('PreProcessorVisitor.cpp', '    if (m_includeInfo.empty()) {\n        return {};\n    }\n', '', 'P02'),
 ('PreProcessorVisitor.cpp', 'if (pairs.empty()) {', 'if (pairs.size() > 100) {', 'P02'),
 ('QtUtils.cpp', 'if (argIndex >= numArgs) {', 'if (argIndex > numArgs) {', 'P02'),
 ('QtUtils.cpp', 'if (callexpr->getNumArgs() == 1) {', 'if (callexpr->getNumArgs() <= 1) {', 'P02'),
 ('SuppressionManager.cpp', 'parentPosition < comment.length() && comment.at', 'parentPosition <= comment.length() && comment.at', 'P02'),
 ('TemplateUtils.cpp', "    if (args.size() <= index || args[index].getKind() != TemplateArgument::Type) {\n        return {};\n    }\n\n    QualType", "    if (args.size() < index || args[index].getKind() != TemplateArgument::Type) {\n        return {};\n    }\n\n    QualType", 'P02'),
 ('TemplateUtils.cpp', 'if (arg.getKind() == TemplateArgument::Type) {', 'if (arg.getKind() != TemplateArgument::Integral) {', 'P02'),
 ('TemplateUtils.cpp', 'for (int i = 0; i < numArgs; ++i) {', 'for (int i = 0; i <= numArgs; ++i) {', 'P02'),
 ('TypeUtils.cpp', '    if (!interestingDeclRefs.empty()) {', '    {', 'P02'),
 ('Utils.cpp', 'if (param >= fDecl->param_size()) {', 'if (param > fDecl->param_size()) {', 'P02'),
 ('Utils.cpp', 'if (refs.size() == 1) {', 'if (refs.size() <= 1) {', 'P02'),
 ('Utils.cpp', 'for (int i = 0, size = str.size(); i < size - 1; ++i) {', 'for (int i = 0, size = str.size(); i < size; ++i) {', 'P02'),
 ('Utils.cpp', 'if (isOperator && childCount > 1 && s == lastCallExpr) {', 'if (isOperator && s == lastCallExpr) {', 'P02?'),
 ('Utils.cpp', 's = childCount > 0 ? *s->child_begin() : nullptr;', 's = childCount >= 0 ? *s->child_begin() : nullptr;', 'P02'),
 ('HierarchyUtils.h', '    return it == parent->child_end() ? nullptr : *it;', '    return *it;', 'P02'),
 ('checkmanager.cpp', 'if (args.size() == 1) {', 'if (args.size() <= 1) {', 'P02'),
 ('checkmanager.cpp', 'return it == m_fixitsByCheckName.end() ? RegisteredFixIt::List() : (*it).second;', 'return (*it).second;', 'P02'),
 ('clazy_stl.h', "str.size() >= 3 && str[0] == '\"'", "str[0] == '\"'", 'P02'),
 ('clazy_stl.h', "while (!s.empty() && std::isspace(s.back())) {", "while (std::isspace(s.back())) {", 'P02'),
 ('checks/detachingbase.cpp', 'if (it == functions.end() || it->first == it->second) {', 'if (it->first == it->second) {', 'P02'),
 (L0 + 'qdatetime-utc.cpp', None, None, ''),
 (L0 + 'qgetenv.cpp', 'if (calls.size() != 2) {', 'if (calls.size() > 2) {', 'P02'),
 (L0 + 'qgetenv.cpp', 'i < memberCall->getNumArgs(); ++i', 'i < 2; ++i', 'P02'),
 (L0 + 'qstring-arg.cpp', 'method->getNumParams() < 3 || memberCall->getNumArgs() < 3', 'method->getNumParams() < 2 || memberCall->getNumArgs() < 3', 'P02'),
 (L0 + 'qstring-arg.cpp', 'method->getNumParams() < 3 || memberCall->getNumArgs() < 3', 'method->getNumParams() < 3 || memberCall->getNumArgs() < 2', 'P02'),
 (L0 + 'writing-to-temporary.cpp', 'if (callExprs.size() < 2) {', 'if (callExprs.empty()) {', 'P02'),
 (L0 + 'wrong-qglobalstatic.cpp', '    if (typeList.empty()) {\n        return;\n    }\n', '', 'P02'),
 (L0 + 'wrong-qglobalstatic.cpp', '        if (templateTypes.empty()) {\n            return;\n        }\n', '', 'P02'),
 (L0 + 'qcolor-from-literal.cpp', 'res && res->getNumArgs() == 1', 'res', 'P02'),
 # same behaviour
 ('FunctionUtils.h', '    if (!call || call->getNumArgs() <= argIndex) {\n        return nullptr;\n    }\n', '    if (!call) {\n        return nullptr;\n    }\n    const unsigned count = call->getNumArgs();\n    if (!(argIndex < count)) {\n        return nullptr;\n    }\n', ''),
 ('PreProcessorVisitor.cpp', '    if (m_includeInfo.empty()) {\n        return {};\n    }\n    return m_includeInfo.back().filenameRange.getEnd();', '    if (m_includeInfo.size() > 0) {\n        return m_includeInfo[m_includeInfo.size() - 1].filenameRange.getEnd();\n    }\n    return {};', ''),
 ('QtUtils.cpp', '    const int numArgs = funcCall->getNumArgs();\n    if (argIndex >= numArgs) {', '    if (static_cast<unsigned>(argIndex) >= funcCall->getNumArgs()) {', ''),
 ('Utils.cpp', 'if (refs.size() == 1) {\n            return refs[0]->getDecl();', 'if (refs.size() == 1) {\n            return refs.front()->getDecl();', ''),
 ('TemplateUtils.cpp', '    const int numArgs = templateArgs->size();\n    result.reserve(numArgs);\n    for (int i = 0; i < numArgs; ++i) {\n        const TemplateArgument &arg = templateArgs->get(i);', '    result.reserve(templateArgs->size());\n    for (unsigned i = 0; i != templateArgs->size(); ++i) {\n        const TemplateArgument &arg = (*templateArgs)[i];', ''),
 ('TemplateUtils.cpp', '    const int numArgs = templateArgs->size();\n    result.reserve(numArgs);\n    for (int i = 0; i < numArgs; ++i) {\n        const TemplateArgument &arg = templateArgs->get(i);', '    result.reserve(templateArgs->size());\n    for (const TemplateArgument &arg : templateArgs->asArray()) {', ''),
 ('Utils.cpp', 'for (int i = 0, size = str.size(); i < size - 1; ++i) {', 'for (size_t i = 0; i + 1 < str.size(); ++i) {', ''),
 ('clazy_stl.h', "    while (!s.empty() && std::isspace(s.back())) {\n        s.pop_back();\n    }", "    for (;;) {\n        if (s.empty() || !std::isspace(s.back())) {\n            break;\n        }\n        s.pop_back();\n    }", ''),
 ('clazy_stl.h', "    if (str.size() >= 3 && str[0] == '\"' && str.at(str.size() - 1) == '\"') {\n        return str.substr(1, str.size() - 2);", "    const auto len = str.size();\n    if (len > 2 && str.front() == '\"' && str.back() == '\"') {\n        return str.substr(1, len - 2);", ''),
 (L0 + 'qgetenv.cpp', 'if (calls.size() != 2) {\n        return;\n    }\n\n    CallExpr *qgetEnvCall = calls.back();', 'if (calls.size() != 2) {\n        return;\n    }\n\n    CallExpr *qgetEnvCall = calls[1];', ''),
 (L0 + 'writing-to-temporary.cpp', '    CallExpr *secondCallToBeEvaluated = callExprs.at(callExprs.size() - 2);', '    const size_t last = callExprs.size() - 1;\n    CallExpr *secondCallToBeEvaluated = callExprs.at(last - 1);', ''),
 (L0 + 'qstring-arg.cpp', '    if (!method || method->getNumParams() < 3 || memberCall->getNumArgs() < 3) {\n        return;\n    }\n', '    if (!method) {\n        return;\n    }\n    const bool enough = method->getNumParams() >= 3 && memberCall->getNumArgs() >= 3;\n    if (!enough) {\n        return;\n    }\n', ''),
 ('checkmanager.cpp', 'return it == m_fixitsByCheckName.end() ? RegisteredFixIt::List() : (*it).second;', 'if (it != m_fixitsByCheckName.end()) {\n        return it->second;\n    }\n    return {};', ''),
 ('checkmanager.cpp', 'auto it = m_fixitsByCheckName.find(checkName);\n    return it == m_fixitsByCheckName.end() ? RegisteredFixIt::List() : (*it).second;', 'if (!m_fixitsByCheckName.contains(checkName)) {\n        return {};\n    }\n    return m_fixitsByCheckName.at(checkName);', ''),
]
M = [m for m in M if m[1] is not None]

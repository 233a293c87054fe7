CHECKS = ['P07']
X = 'checkmanager.cpp'
H = 'checkmanager.h'
REM = "        list.erase(remove_if(list.begin(),\n                             list.end(),\n                             [name](const RegisteredCheck &c) {\n                                 return c.name == name;\n                             }),\n                   list.end());"
AV = "    checks.erase(remove_if(checks.begin(),\n                           checks.end(),\n                           [maxLevel](const RegisteredCheck &r) {\n                               return r.level > maxLevel;\n                           }),\n                 checks.end());\n"
CFN = "    return std::ranges::find_if(checks, [name](const RegisteredCheck &r) {\n        return r.name == name;\n    });"
CFL = "        std::ranges::copy_if(m_registeredChecks, std::back_inserter(result), [&](const RegisteredCheck &r) {\n            return r.level <= level;\n        });"
TAKE = "    auto it = std::ranges::find(args, arg);\n    if (it != args.end()) {\n        args.erase(it, it + 1);\n        return true;\n    }\n\n    return false;"
M = [
 (X, "return r.level > maxLevel;", "return r.level >= maxLevel;", 'P07'),
 (X, "return r.level <= level;", "return r.level == level;", 'P07'),
 (X, "level > CheckLevelUndefined && level <= MaxCheckLevel", "level > CheckLevelUndefined && level < MaxCheckLevel", 'P07'),
 (X, "level > CheckLevelUndefined && level <= MaxCheckLevel", "level > CheckLevel0 && level <= MaxCheckLevel", 'P07'),
 (X, "                                 return c.name == name;", "                                 return clazy::startsWith(c.name, name);", 'P07'),
 (X, "    for (auto &name : checkNames) {\n        list.erase", "    for (auto &name : checkNames) {\n        if (name == checkNames.back() && checkNames.size() > 1) {\n            break;\n        }\n        list.erase", 'P07'),
 (X, "        return r.name == name;\n    });", "        return r.name.size() == name.size() && clazy::startsWith(r.name, name.substr(0, 20));\n    });", 'P07'),
 (X, "            requestedLevel = static_cast<CheckLevel>(i);\n            break;", "            requestedLevel = static_cast<CheckLevel>(i + 1);\n            break;", 'P07'),
 (X, "            requestedLevel = static_cast<CheckLevel>(i);\n            break;", "            requestedLevel = static_cast<CheckLevel>(i);\n            args.clear();\n            break;", 'P07'),
 (X, "if (args.size() > 1) {", "if (args.size() > 2) {", 'P07'),
 (X, "if (args.size() == 1) {", "if (args.size() == 1 && requestedLevel == CheckLevelUndefined) {", 'P07'),
 (X, "if (result.empty() && userDisabledChecks.empty()) {", "if (result.empty()) {", 'P07'),
 (X, "    RegisteredCheck::List checksFromEnv = requestedChecksThroughEnv(/*by-ref*/ userDisabledChecks);", "    std::vector<std::string> dummy;\n    RegisteredCheck::List checksFromEnv = requestedChecksThroughEnv(/*by-ref*/ dummy);", 'P07'),
 (X, "    if (result.empty() && requestedLevel == CheckLevelUndefined) {", "    if (requestedLevel == CheckLevelUndefined && args.empty()) {", 'P07'),
 (X, "    if (result.empty() && requestedLevel == CheckLevelUndefined) {", "    if (result.empty()) {", 'P07'),
 (X, "    clazy::sort_and_remove_dups(result, checkLessThan);\n    CheckManager::removeChecksFromList(result, userDisabledChecks);\n", "    clazy::sort_and_remove_dups(result, checkLessThan);\n", 'P07'),
 (X, "    clazy::sort_and_remove_dups(result, checkLessThan);\n    CheckManager::removeChecksFromList(result, userDisabledChecks);\n", "    CheckManager::removeChecksFromList(result, userDisabledChecks);\n", 'P07'),
 (X, "    copy(checksFromEnv.cbegin(), checksFromEnv.cend(), back_inserter(result));\n", "    if (result.empty()) {\n        result = checksFromEnv;\n    }\n", 'P07'),
 (X, "checksEnvStr == \"all_checks\" ? availableChecks(CheckLevel2)", "checksEnvStr == \"all_checks\" ? availableChecks(DefaultCheckLevel)", 'P07'),
 (X, "checksForCommaSeparatedString(checksEnvStr, /*by-ref=*/disabledChecksThroughEnv)", "checksForCommaSeparatedString(checksEnvStr)", 'P07'),
 (X, "    std::copy(disabledChecksThroughEnv.begin(), disabledChecksThroughEnv.end(), std::back_inserter(userDisabledChecks));", "    userDisabledChecks = disabledChecksThroughEnv;", 'P07'),
 (X, "digit > CheckLevelUndefined && digit <= MaxCheckLevel", "digit > CheckLevelUndefined && digit < MaxCheckLevel", 'P07'),
 (X, "digit > CheckLevelUndefined && digit <= MaxCheckLevel", "digit > CheckLevel0 && digit <= MaxCheckLevel", 'P07'),
 (X, "const int digit = lastChar - '0';", "const int digit = name.size() - '0';", 'P07'),
 (X, "clazy::startsWith(name, s_levelPrefix) && name.size() == strlen(s_levelPrefix) + 1", "clazy::startsWith(name, s_levelPrefix)", 'P07'),
 (X, "                        if (checkExists(checkName)) {\n", "                        if (!checkForName(result, checkName)->name.empty() || result.empty()) {\n", 'P07'),
 (X, "            } else {\n                result.push_back(*it);\n            }\n            continue;", "            } else {\n                result.push_back(*it);\n                break;\n            }\n            continue;", 'P07'),
 (X, "        if (checkForName(result, name) != result.cend()) {\n            continue;", "        if (checkForName(result, name) != result.cend()) {\n            break;", 'P07'),
 (X, "    removeChecksFromList(result, userDisabledChecks);\n\n    return result;\n}\n\nstd::vector<std::string> CheckManager::checksAs", "    return result;\n}\n\nstd::vector<std::string> CheckManager::checksAs", 'trivial?'),
 (X, "                if (fixit.name == fixitName) {\n                    return (*it).first;", "                if (clazy::startsWith(fixit.name, fixitName)) {\n                    return (*it).first;", 'P07'),
 (X, "checkName.erase(0, 3);", "checkName.erase(0, 2);", 'P07'),
 (X, "splitString(str, ',');\n    RegisteredCheck", "splitString(str, ';');\n    RegisteredCheck", 'P07'),
 (H, "return c1.name < c2.name;", "return c1.level < c2.level;", 'P07'),
 (H, "return name == other.name;", "return name == other.name || level == other.level;", 'P07'),
 # equivalents
 (X, REM, "        std::erase_if(list, [&name](const RegisteredCheck &c) {\n            return name == c.name;\n        });", ''),
 (X, REM, "        for (auto it = list.begin(); it != list.end();) {\n            if (it->name == name) {\n                it = list.erase(it);\n            } else {\n                ++it;\n            }\n        }", ''),
 (X, "    for (auto &name : checkNames) {\n" + REM + "\n    }", "    std::erase_if(list, [&checkNames](const RegisteredCheck &c) {\n        return std::ranges::find(checkNames, c.name) != checkNames.end();\n    });", ''),
 (X, AV, "    std::erase_if(checks, [maxLevel](const RegisteredCheck &r) {\n        return maxLevel < r.level;\n    });\n", ''),
 (X, "    RegisteredCheck::List checks = m_registeredChecks;\n\n" + AV, "    RegisteredCheck::List checks;\n    for (const RegisteredCheck &r : m_registeredChecks) {\n        if (r.level <= maxLevel) {\n            checks.push_back(r);\n        }\n    }\n", ''),
 (X, CFN, "    auto it = checks.begin();\n    for (; it != checks.end(); ++it) {\n        if (it->name == name) {\n            break;\n        }\n    }\n    return it;", ''),
 (X, CFN, "    for (auto it = checks.cbegin(); it != checks.cend(); ++it) {\n        if (it->name == name) {\n            return it;\n        }\n    }\n    return checks.cend();", ''),
 (X, CFN, "    return std::find_if(checks.begin(), checks.end(), [&name](const auto &r) {\n        return name == r.name;\n    });", ''),
 (X, CFL, "        for (const auto &r : m_registeredChecks) {\n            if (r.level > level) {\n                continue;\n            }\n            result.push_back(r);\n        }", ''),
 (X, "    RegisteredCheck::List result;\n    if (level > CheckLevelUndefined && level <= MaxCheckLevel) {\n" + CFL + "\n    }\n\n    return result;", "    if (level <= CheckLevelUndefined || level > MaxCheckLevel) {\n        return {};\n    }\n\n    return availableChecks(static_cast<CheckLevel>(level));", ''),
 (X, TAKE, "    for (auto it = args.begin(); it != args.end(); ++it) {\n        if (*it == arg) {\n            args.erase(it);\n            return true;\n        }\n    }\n    return false;", ''),
 (X, TAKE, "    const auto it = std::find(args.begin(), args.end(), arg);\n    const bool found = it != args.end();\n    if (found) {\n        args.erase(it);\n    }\n    return found;", ''),
 (X, "    const int numLevels = levels.size();\n    CheckLevel requestedLevel = CheckLevelUndefined;\n    for (int i = 0; i < numLevels; ++i) {\n        if (takeArgument(levels.at(i), args)) {\n            requestedLevel = static_cast<CheckLevel>(i);\n            break;\n        }\n    }\n", "    CheckLevel requestedLevel = CheckLevelUndefined;\n    if (takeArgument(levels[0], args)) {\n        requestedLevel = CheckLevel0;\n    } else if (takeArgument(levels[1], args)) {\n        requestedLevel = CheckLevel1;\n    } else if (takeArgument(levels[2], args)) {\n        requestedLevel = CheckLevel2;\n    }\n", ''),
 (X, "    const int numLevels = levels.size();\n    CheckLevel requestedLevel = CheckLevelUndefined;\n    for (int i = 0; i < numLevels; ++i) {\n        if (takeArgument(levels.at(i), args)) {\n            requestedLevel = static_cast<CheckLevel>(i);\n            break;\n        }\n    }\n", "    CheckLevel requestedLevel = CheckLevelUndefined;\n    int index = 0;\n    for (const std::string &level : levels) {\n        if (takeArgument(level, args)) {\n            requestedLevel = static_cast<CheckLevel>(index);\n            break;\n        }\n        ++index;\n    }\n", ''),
 (X, "        if (result.empty() && userDisabledChecks.empty()) { // User passed inexisting checks.\n            return {};\n        }", "        const bool nothing = userDisabledChecks.empty() && result.empty();\n        if (nothing) {\n            return result;\n        }", ''),
 (X, "    copy(checksFromEnv.cbegin(), checksFromEnv.cend(), back_inserter(result));\n", "    result.insert(result.end(), checksFromEnv.begin(), checksFromEnv.end());\n", ''),
 (X, "    copy(checksFromEnv.cbegin(), checksFromEnv.cend(), back_inserter(result));\n", "    for (const auto &c : checksFromEnv) {\n        result.push_back(c);\n    }\n", ''),
 (X, "    if (result.empty() && requestedLevel == CheckLevelUndefined) {\n        // No checks or level specified, lets use the default level\n        requestedLevel = DefaultCheckLevel;\n    }\n", "    const bool askedForNothing = requestedLevel == CheckLevelUndefined && result.empty();\n    requestedLevel = askedForNothing ? DefaultCheckLevel : requestedLevel;\n", ''),
 (X, "    std::ranges::copy(checksFromRequestedLevel, std::back_inserter(result));\n    clazy::sort", "    for (size_t i = 0; i < checksFromRequestedLevel.size(); ++i) {\n        result.emplace_back(checksFromRequestedLevel[i]);\n    }\n    clazy::sort", ''),
 (X, "    clazy::sort_and_remove_dups(result, checkLessThan);\n    CheckManager::removeChecksFromList(result, userDisabledChecks);\n", "    CheckManager::removeChecksFromList(result, userDisabledChecks);\n    clazy::sort_and_remove_dups(result, checkLessThan);\n", ''),
 (X, "    clazy::sort_and_remove_dups(result, checkLessThan);\n    CheckManager::removeChecksFromList(result, userDisabledChecks);\n", "    std::sort(result.begin(), result.end(), checkLessThan);\n    result.erase(std::unique(result.begin(), result.end()), result.end());\n    removeChecksFromList(result, userDisabledChecks);\n", ''),
 (X, "    if (args.size() > 1) { // we only expect a level and a comma separated list of arguments\n        return {};\n    }\n\n    std::vector<std::string> userDisabledChecks;\n    if (args.size() == 1) {", "    if (args.size() >= 2) { // we only expect a level and a comma separated list of arguments\n        return RegisteredCheck::List();\n    }\n\n    std::vector<std::string> userDisabledChecks;\n    if (!args.empty()) {", ''),
 (X, "checksForCommaSeparatedString(args[0], /*by-ref*/ userDisabledChecks)", "checksForCommaSeparatedString(args.front(), /*by-ref*/ userDisabledChecks)", ''),
 (X, "    if (requestedChecksThroughEnv.empty()) {\n        const char *checksEnv = getenv(\"CLAZY_CHECKS\");\n        if (checksEnv) {\n            const std::string checksEnvStr = clazy::unquoteString(checksEnv);\n            requestedChecksThroughEnv =\n                checksEnvStr == \"all_checks\" ? availableChecks(CheckLevel2) : checksForCommaSeparatedString(checksEnvStr, /*by-ref=*/disabledChecksThroughEnv);\n        }\n    }\n", "    const char *checksEnv = requestedChecksThroughEnv.empty() ? getenv(\"CLAZY_CHECKS\") : nullptr;\n    if (checksEnv) {\n        const std::string checksEnvStr = clazy::unquoteString(checksEnv);\n        if (checksEnvStr == \"all_checks\") {\n            requestedChecksThroughEnv = availableChecks(MaxCheckLevel);\n        } else {\n            requestedChecksThroughEnv = checksForCommaSeparatedString(checksEnvStr, disabledChecksThroughEnv);\n        }\n    }\n", ''),
 (X, "    std::copy(disabledChecksThroughEnv.begin(), disabledChecksThroughEnv.end(), std::back_inserter(userDisabledChecks));", "    userDisabledChecks.insert(userDisabledChecks.end(), disabledChecksThroughEnv.begin(), disabledChecksThroughEnv.end());", ''),
 (X, "                    auto lastChar = name.back();\n                    const int digit = lastChar - '0';\n                    if (digit > CheckLevelUndefined && digit <= MaxCheckLevel) {", "                    const char c = name[name.size() - 1];\n                    const int digit = c - '0';\n                    if (digit >= CheckLevel0 && digit <= CheckLevel2) {", ''),
 (X, "                        std::string checkName = name;\n                        checkName.erase(0, 3);\n", "                        const std::string checkName = name.substr(3);\n", ''),
 (X, "                } else {\n                    if (clazy::startsWith(name, \"no-\")) {\n                        std::string checkName = name;\n                        checkName.erase(0, 3);\n                        if (checkExists(checkName)) {\n                            userDisabledChecks.push_back(checkName);\n                        } else {\n                            llvm::errs() << \"Invalid check to disable: \" << name << \"\\n\";\n                        }\n                    } else {\n                        llvm::errs() << \"Invalid check: \" << name << \"\\n\";\n                    }\n                }", "                } else if (!clazy::startsWith(name, \"no-\")) {\n                    llvm::errs() << \"Invalid check: \" << name << \"\\n\";\n                } else {\n                    std::string checkName = name;\n                    checkName.erase(0, 3);\n                    if (!checkExists(checkName)) {\n                        llvm::errs() << \"Invalid check to disable: \" << name << \"\\n\";\n                        continue;\n                    }\n                    userDisabledChecks.emplace_back(checkName);\n                }", ''),
 (X, "        auto it = checkForName(m_registeredChecks, name);\n        if (it == m_registeredChecks.cend()) {\n            // Unknown", "        auto it = checkForName(m_registeredChecks, name);\n        const bool unknown = it == m_registeredChecks.cend();\n        if (unknown) {\n            // Unknown", ''),
 (X, "        if (it == m_registeredChecks.cend()) {\n            // Unknown", "        if (it != m_registeredChecks.cend()) {\n            result.push_back(*it);\n            continue;\n        } else {\n            // Unknown", ''),
 (H, "return c1.name < c2.name;", "return c2.name > c1.name;", ''),
 (H, "return name == other.name;", "return !(name != other.name);", ''),
 (X, "            for (const RegisteredFixIt &fixit : fixits) {\n                if (fixit.name == fixitName) {\n                    return (*it).first;\n                }\n            }\n", "            const bool known = std::ranges::any_of(fixits, [&fixitName](const RegisteredFixIt &f) {\n                return f.name == fixitName;\n            });\n            if (known) {\n                return registeredCheck.name;\n            }\n", ''),
]

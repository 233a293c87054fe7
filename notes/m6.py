CHECKS = ['P08', 'P09']
C = 'Checks.h'
B = 'checkbase.cpp'
M = [
 (C, 'check<QStringArg>("qstring-arg", CheckLevel0, RegisteredCheck::Option_VisitsStmts', 'check<QStringArg>("qstring-arg", CheckLevel0, RegisteredCheck::Option_VisitsDecls', 'P08'),
 (C, 'RegisteredCheck::Option_VisitsDecls | RegisteredCheck::Option_PreprocessorCallbacks, false));\n    registerFixIt(1, "fix-missing-qobject-macro"', 'RegisteredCheck::Option_VisitsDecls, false));\n    registerFixIt(1, "fix-missing-qobject-macro"', 'P08'),
 (C, 'check<RuleOfThree>("rule-of-three", CheckLevel2', 'check<RuleOfThree>("rule-of-three", ManualCheckLevel', 'P09'),
 (C, 'check<RuleOfThree>("rule-of-three"', 'check<RuleOfTwoSoft>("rule-of-three"', 'P08,P09'),
 (C, 'registerFixIt(2, "fix-fromLatin1_fromUtf8-allocations", "qstring-allocations")', 'registerFixIt(2, "fix-fromLatin1_fromUtf8-allocations", "qstring-ref")', 'P09'),
 (C, 'canIgnoreIncludes ? CheckBase::Option_CanIgnoreIncludes : CheckBase::Option_None', 'CheckBase::Option_CanIgnoreIncludes', 'P09'),
 (C, 'return new T(name,', 'return new T(std::string("clazy-") + name,', 'P08'),
 (C, '("static-pmf", CheckLevel2, RegisteredCheck::Option_VisitsDecls, false)', '("static-pmf", CheckLevel2, RegisteredCheck::Option_VisitsDecls, true)', 'P09'),
 (B, 'check->VisitElif(loc, conditionRange, conditionValue, ifLoc);', 'check->VisitElif(ifLoc, conditionRange, conditionValue, loc);', 'P08'),
 (B, 'check->VisitIfndef(loc, macroNameTok);', 'check->VisitIfdef(loc, macroNameTok);', 'P08'),
 (B, '    check->VisitDefined(macroNameTok, range);', '    if (range.isValid()) {\n        check->VisitDefined(macroNameTok, range);\n    }', 'P08'),
 (B, '    , m_options(options)', '    , m_options(Option_None)', 'P08'),
 ('checks/level1/readlock-detaching.cpp', 'getNodeAs<CXXMemberCallExpr>("qreadwritelockCall")', 'getNodeAs<CXXMemberCallExpr>("qreadlockerCall")', 'P08'),
 ('checks/level0/qcolor-from-literal.cpp', 'getNodeAs<StringLiteral>("myLiteral")', 'getNodeAs<CallExpr>("myLiteral")', '!P08'),
 ('checks/level1/readlock-detaching.cpp', 'getNodeAs<CXXConstructExpr>("qreadlockerCtor")', 'getNodeAs<CXXTemporaryObjectExpr>("qreadlockerCtor")', '!P08'),
 ('checks/level0/qstring-arg.cpp', ': CheckBase(name, options)', ': CheckBase(name, Option_CanIgnoreIncludes)', 'P08?'),
 # equivalents
 (C, 'RegisteredCheck::Option_VisitsDecls | RegisteredCheck::Option_PreprocessorCallbacks, false));\n    registerFixIt(1, "fix-missing-qobject-macro"', 'RegisteredCheck::Option_PreprocessorCallbacks | RegisteredCheck::Option_VisitsDecls, false));\n    registerFixIt(1, "fix-missing-qobject-macro"', ''),
 (C, '    return RegisteredCheck{name, level, factoryFuntion, options};', '    RegisteredCheck rc;\n    rc.name = name;\n    rc.level = level;\n    rc.factory = factoryFuntion;\n    rc.options = options;\n    return rc;', ''),
 (C, '    auto factoryFuntion = [canIgnoreIncludes, name]() {\n        return new T(name, canIgnoreIncludes ? CheckBase::Option_CanIgnoreIncludes : CheckBase::Option_None);\n    };', '    const CheckBase::Options opts = canIgnoreIncludes ? CheckBase::Option_CanIgnoreIncludes : CheckBase::Option_None;\n    auto factoryFuntion = [=]() -> CheckBase * {\n        auto *c = new T(name, opts);\n        return c;\n    };', ''),
 (B, '    check->VisitElif(loc, conditionRange, conditionValue, ifLoc);', '    auto *c = check;\n    c->VisitElif(loc, conditionRange, conditionValue, ifLoc);', ''),
 (B, '    check->VisitMacroExpands(macroNameTok, range, md.getMacroInfo());', '    const MacroInfo *info = md.getMacroInfo();\n    check->VisitMacroExpands(macroNameTok, range, info);', ''),
 ('checks/level1/readlock-detaching.cpp', '"qreadlockerCtor"', 'std::string("qreadlockerCtor")', ''),
]

# behaviour-preserving refactorings, all applied to one tree: (file, [(old, new), ...])
R = [
('checks/level0/temporary-iterator.cpp', [
("""    // Catch variant.toList().cbegin(), which is ok
    auto *chainedMemberCall = clazy::getFirstChildOfType<CXXMemberCallExpr>(memberExpr);
    if (chainedMemberCall) {
        if (isBlacklistedFunction(clazy::qualifiedMethodName(chainedMemberCall->getMethodDecl()))) {
            return;
        }
    }

    // catch map[foo].cbegin()
    auto *chainedOperatorCall = clazy::getFirstChildOfType<CXXOperatorCallExpr>(memberExpr);
    if (chainedOperatorCall) {
        FunctionDecl *func = chainedOperatorCall->getDirectCallee();
        if (func) {
            auto *method = dyn_cast<CXXMethodDecl>(func);
            if (method) {
                if (isBlacklistedFunction(clazy::qualifiedMethodName(method))) {
                    return;
                }
            }
        }
    }
""", """    if (isChainedOnAllowedCall(memberExpr)) {
        return;
    }
"""),
("""void TemporaryIterator::VisitStmt(""", """static CXXMethodDecl *calledOperator(CXXOperatorCallExpr *call)
{
    return call ? dyn_cast_or_null<CXXMethodDecl>(call->getDirectCallee()) : nullptr;
}

static bool isChainedOnAllowedCall(CXXMemberCallExpr *memberExpr)
{
    // Catch variant.toList().cbegin(), which is ok
    if (auto *chained = clazy::getFirstChildOfType<CXXMemberCallExpr>(memberExpr); chained && isBlacklistedFunction(clazy::qualifiedMethodName(chained->getMethodDecl()))) {
        return true;
    }

    // catch map[foo].cbegin()
    CXXMethodDecl *op = calledOperator(clazy::getFirstChildOfType<CXXOperatorCallExpr>(memberExpr));
    return op != nullptr && isBlacklistedFunction(clazy::qualifiedMethodName(op));
}

static bool isRvalueCast(Expr *expr)
{
    const auto isLoad = [](const Stmt *s) {
        const auto *cast = dyn_cast_or_null<ImplicitCastExpr>(s);
        return cast && cast->getCastKind() == CK_LValueToRValue;
    };
    auto *impl = dyn_cast<ImplicitCastExpr>(expr);
    return impl && (isLoad(impl) || isLoad(clazy::getFirstChild(impl)));
}

void TemporaryIterator::VisitStmt("""),
("""    {
        // *really* check for rvalue
        auto *impl = dyn_cast<ImplicitCastExpr>(expr);
        if (impl) {
            if (impl->getCastKind() == CK_LValueToRValue) {
                return;
            }

            Stmt *firstChild = clazy::getFirstChild(impl);
            if (llvm::isa_and_nonnull<ImplicitCastExpr>(firstChild) && dyn_cast<ImplicitCastExpr>(firstChild)->getCastKind() == CK_LValueToRValue) {
                return;
            }
        }
    }
""", """    // *really* check for rvalue
    if (isRvalueCast(expr)) {
        return;
    }
"""),
("""    if (!classDecl || !methodDecl) {
        return;
    }

    // Check if it's a container
    auto it = m_methodsByType.find(clazy::name(classDecl));
    if (it == m_methodsByType.end()) {
        return;
    }

    // Check if it's a method returning an iterator
    const StringRef functionName = clazy::name(methodDecl);
    const auto &allowedFunctions = it->second;
    if (!clazy::contains(allowedFunctions, functionName)) {
        return;
    }
""", """    const bool resolved = classDecl && methodDecl;
    if (!resolved) {
        return;
    }

    // Check if it's a container, and a method returning an iterator
    const auto it = m_methodsByType.find(clazy::name(classDecl));
    const auto *allowedFunctions = it == m_methodsByType.end() ? nullptr : &it->second;
    if (!allowedFunctions || !clazy::contains(*allowedFunctions, clazy::name(methodDecl))) {
        return;
    }
"""),
]),
('checks/level0/lambda-in-connect.cpp', [
("""    ValueDecl *senderDecl = clazy::signalSenderForConnect(callExpr);
    if (senderDecl) {
        const Type *t = senderDecl->getType().getTypePtrOrNull();
        if (t && !t->isPointerType()) {
            return;
        }
    }

    ValueDecl *receiverDecl = clazy::signalReceiverForConnect(callExpr);
    if (receiverDecl) {
        const Type *t = receiverDecl->getType().getTypePtrOrNull();
        if (t && !t->isPointerType()) {
            return;
        }
    }
""", """    ValueDecl *receiverDecl = clazy::signalReceiverForConnect(callExpr);
    for (const ValueDecl *object : {clazy::signalSenderForConnect(callExpr), receiverDecl}) {
        if (!object) {
            continue;
        }

        if (const Type *t = object->getType().getTypePtrOrNull(); t && !t->isPointerType()) {
            return;
        }
    }
"""),
("""    auto captures = lambda->captures();
    if (captures.begin() == captures.end()) {
        return;
    }
""", """    if (lambda->capture_size() == 0) {
        return;
    }
"""),
("""    for (auto capture : captures) {
        if (capture.getCaptureKind() == clang::LCK_ByRef) {
            auto *declForCapture = capture.getCapturedVar();
            if (declForCapture && declForCapture != receiverDecl && clazy::isValueDeclInFunctionContext(declForCapture)) {
                emitWarning(capture.getLocation(), "captured local variable by reference might go out of scope before lambda is called");
            }
        }
    }
""", """    for (auto it = lambda->capture_begin(), end = lambda->capture_end(); it != end; ++it) {
        if (it->getCaptureKind() != clang::LCK_ByRef) {
            continue;
        }

        auto *declForCapture = it->getCapturedVar();
        if (!declForCapture || declForCapture == receiverDecl) {
            continue;
        }

        if (clazy::isValueDeclInFunctionContext(declForCapture)) {
            emitWarning(it->getLocation(), "captured local variable by reference might go out of scope before lambda is called");
        }
    }
"""),
]),
('checks/level1/child-event-qobject-cast.cpp', [
("""    auto callExprs = clazy::getStatements<CallExpr>(body, &(sm()));
    for (auto *callExpr : callExprs) {
        if (callExpr->getNumArgs() != 1) {
            continue;
        }

        const FunctionDecl *fdecl = callExpr->getDirectCallee();
        if (fdecl && clazy::name(fdecl) == "qobject_cast") {
            auto *childCall = dyn_cast<CXXMemberCallExpr>(callExpr->getArg(0));
            // The call to event->child()
            if (!childCall) {
                continue;
            }

            auto *childFDecl = childCall->getDirectCallee();
            if (!childFDecl || childFDecl->getQualifiedNameAsString() != qtNamespaced("QChildEvent::child")) {
                continue;
            }

            emitWarning(childCall, "qobject_cast in childEvent");
        }
    }
""", """    const auto castOperand = [](CallExpr *call) -> Expr * {
        const FunctionDecl *fdecl = call->getDirectCallee();
        const bool isCast = fdecl && clazy::name(fdecl) == "qobject_cast" && call->getNumArgs() == 1;
        return isCast ? call->getArg(0) : nullptr;
    };

    std::vector<CallExpr *> callExprs = clazy::getStatements<CallExpr>(body, &(sm()));
    for (size_t i = 0; i < callExprs.size(); ++i) {
        // The call to event->child()
        auto *childCall = dyn_cast_or_null<CXXMemberCallExpr>(castOperand(callExprs[i]));
        const FunctionDecl *childFDecl = childCall ? childCall->getDirectCallee() : nullptr;
        if (childFDecl && childFDecl->getQualifiedNameAsString() == qtNamespaced("QChildEvent::child")) {
            emitWarning(childCall, "qobject_cast in childEvent");
        }
    }
"""),
]),
('checks/level1/foreach.cpp', [
("""    auto *memberExpr = dyn_cast<MemberExpr>(stm);
    if (memberExpr) {
        ValueDecl *valDecl = memberExpr->getMemberDecl();
        if (valDecl && valDecl->isCXXClassMember()) {
            DeclContext *declContext = valDecl->getDeclContext();
            auto *recordDecl = dyn_cast<CXXRecordDecl>(declContext);
            if (recordDecl) {
                const std::string className = Utils::rootBaseClass(recordDecl)->getQualifiedNameAsString();
                const std::unordered_map<std::string, std::vector<StringRef>> &detachingMethodsMap = clazy::detachingMethods();
                if (detachingMethodsMap.find(className) != detachingMethodsMap.end()) {
                    const std::string functionName = valDecl->getNameAsString();
                    const auto &allowedFunctions = detachingMethodsMap.at(className);
                    if (clazy::contains(allowedFunctions, functionName)) {
                        Expr *expr = memberExpr->getBase();

                        if (expr) {
                            auto *refExpr = dyn_cast<DeclRefExpr>(expr);
                            if (!refExpr) {
                                auto *s = clazy::getFirstChildAtDepth(expr, 1);
                                refExpr = dyn_cast_or_null<DeclRefExpr>(s);
                                if (refExpr) {
                                    if (refExpr->getDecl()
                                        == containerValueDecl) { // Finally, check if this non-const member call is on the same container we're iterating
                                        return true;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    const auto children = stm->children();
    return std::any_of(children.begin(), children.end(), [this, containerValueDecl](Stmt *child) {
        return this->containsDetachments(child, containerValueDecl);
    });
""", """    // Finally, check if this non-const member call is on the same container we're iterating
    if (auto *memberExpr = dyn_cast<MemberExpr>(stm); memberExpr && isDetachingMember(memberExpr)) {
        Expr *expr = memberExpr->getBase();
        if (expr && !isa<DeclRefExpr>(expr)) {
            const auto *refExpr = dyn_cast_or_null<DeclRefExpr>(clazy::getFirstChildAtDepth(expr, 1));
            if (refExpr && refExpr->getDecl() == containerValueDecl) {
                return true;
            }
        }
    }

    for (Stmt *child : stm->children()) {
        if (containsDetachments(child, containerValueDecl)) {
            return true;
        }
    }

    return false;
"""),
("""bool Foreach::containsDetachments(Stmt *stm""", """static bool isDetachingMember(MemberExpr *memberExpr)
{
    ValueDecl *valDecl = memberExpr->getMemberDecl();
    if (!valDecl || !valDecl->isCXXClassMember()) {
        return false;
    }

    auto *recordDecl = dyn_cast<CXXRecordDecl>(valDecl->getDeclContext());
    if (!recordDecl) {
        return false;
    }

    const auto &detachingMethodsMap = clazy::detachingMethods();
    const auto methods = detachingMethodsMap.find(Utils::rootBaseClass(recordDecl)->getQualifiedNameAsString());
    return methods != detachingMethodsMap.cend() && clazy::contains(methods->second, valDecl->getNameAsString());
}

bool Foreach::containsDetachments(Stmt *stm"""),
("""    std::vector<ForStmt *> forStatements;
    clazy::getChilds<ForStmt>(m_lastForStmt->getBody(), forStatements);
    if (forStatements.empty()) {
        return;
    }

    // Get the variable declaration (lhs of foreach)
    std::vector<DeclStmt *> varDecls;
    clazy::getChilds<DeclStmt>(forStatements.at(0), varDecls);
    if (varDecls.empty()) {
        return;
    }

    Decl *decl = varDecls.at(0)->getSingleDecl();
    VarDecl *varDecl = decl ? dyn_cast<VarDecl>(decl) : nullptr;
    if (!varDecl) {
        return;
    }
""", """    std::vector<ForStmt *> forStatements;
    clazy::getChilds<ForStmt>(m_lastForStmt->getBody(), forStatements);
    ForStmt *inner = forStatements.size() > 0 ? *forStatements.begin() : nullptr;
    if (!inner) {
        return;
    }

    // Get the variable declaration (lhs of foreach)
    std::vector<DeclStmt *> varDecls;
    clazy::getChilds<DeclStmt>(inner, varDecls);
    auto *varDecl = !varDecls.empty() ? dyn_cast_or_null<VarDecl>(varDecls.front()->getSingleDecl()) : nullptr;
    if (varDecl == nullptr) {
        return;
    }
"""),
("varDecl, /*by-ref*/ classif, forStatements.at(0));", "varDecl, /*by-ref*/ classif, inner);"),
]),
('checks/level1/qproperty-without-notify.cpp', [
("""    std::vector<std::string> split = clazy::splitString(text, ' ');

    bool found_read = false;
    bool found_constant = false;
    bool found_notify = false;
    for (std::string &token : split) {
        clazy::rtrim(/*by-ref*/ token);
        if (!found_read && token == "READ") {
            found_read = true;
            continue;
        }

        if (!found_constant && token == "CONSTANT") {
            found_constant = true;
            continue;
        }

        if (!found_notify && token == "NOTIFY") {
            found_notify = true;
            continue;
        }
    }
""", """    std::vector<std::string> split = clazy::splitString(text, ' ');
    for (auto &token : split) {
        clazy::rtrim(/*by-ref*/ token);
    }
    const auto found = [&split](const char *keyword) {
        return std::find(split.begin(), split.end(), keyword) != split.end();
    };
    const bool found_read = found("READ");
    const bool found_constant = found("CONSTANT");
    const bool found_notify = found("NOTIFY");
"""),
("""    if (text.back() == ')') {
        text.pop_back();
    }
""", """    if (text[text.size() - 1] == ')') {
        text.resize(text.size() - 1);
    }
"""),
]),
('checks/level0/qgetenv.cpp', [
("""        for (unsigned int i = 0; i < memberCall->getNumArgs(); ++i) {
            auto *arg = memberCall->getArg(i);
            if (i == 0 && !isa<CXXDefaultArgExpr>(arg)) {
                if (!isa<CastExpr>(arg) || !isa<CXXNullPtrLiteralExpr>(dyn_cast<CastExpr>(arg)->getSubExpr())) {
                    shouldIncludeOkParameter = true;
                }
            } else if (i == 1) {
                if (auto *intLiteral = dyn_cast<IntegerLiteral>(arg)) {
                    if (intLiteral->getValue() != 0) {
                        return; // Custom base is specified - ignore this case
                    }
                } else if (isa<CXXDefaultArgExpr>(arg)) {
                    changesToBaseAutodetection = true;
                } else {
                    return; // If the base is neither the 0 literal or the default, skip checking it
                }
            }
        }
""", """        const unsigned numArgs = memberCall->getNumArgs();
        if (numArgs > 0) {
            const Expr *ok = memberCall->getArg(0);
            const auto *cast = dyn_cast<CastExpr>(ok);
            const bool isNull = cast && isa<CXXNullPtrLiteralExpr>(cast->getSubExpr());
            shouldIncludeOkParameter = !isa<CXXDefaultArgExpr>(ok) && !isNull;
        }
        if (numArgs > 1) {
            const Expr *base = memberCall->getArg(1);
            const auto *intLiteral = dyn_cast<IntegerLiteral>(base);
            if (!intLiteral && !isa<CXXDefaultArgExpr>(base)) {
                return; // If the base is neither the 0 literal or the default, skip checking it
            }
            if (intLiteral && intLiteral->getValue() != 0) {
                return; // Custom base is specified - ignore this case
            }
            changesToBaseAutodetection = !intLiteral;
        }
"""),
("""    if (calls.size() != 2) {
        return;
    }

    CallExpr *qgetEnvCall = calls.back();
""", """    const bool isChainOfTwo = calls.size() == 2;
    if (!isChainOfTwo) {
        return;
    }

    CallExpr *qgetEnvCall = calls[1];
"""),
]),
]

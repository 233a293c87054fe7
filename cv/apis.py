"""Which Clang/LLVM accessors may return null (from their documented contracts)."""
from .flow import is_nullable_type

NUL = set('''getAttr getBody getDefinition getCalleeDecl getDirectCallee getMethodDecl getDescribedClassTemplate getInitExpr getAsFunction
getAsTagDecl getPointeeCXXRecordDecl getMacroInfo getTemplateSpecializationInfo getBestDynamicClassType getAsTemplateDecl getMember getFriendType getAsObject
getAsArray getArray getInit getDefaultArg getRetValue getTypeSourceInfo getTemplateSpecializationArgs getIdentifierInfo getIdentifier getAs
getAsCXXRecordDecl getAsRecordDecl getTypePtrOrNull getFilename getPointeeType getDeducedType getFileEntryRefForID getBufferOrNone
findNextToken getFile parse getString getAsInteger getVFSFromYAML getMostRecentCXXRecordDecl getBufferForFile getNominatedNamespace getElse getNodeAs getRecordDecl getImplicitObjectArgument'''.split())
NULQ = {'getenv', 'std::getenv', 'secure_getenv', 'clang::ParentMap::getParent', 'clang::DeclContext::getParent', 'clang::DynTypedNode::get', 'clang::ForStmt::getCond', 'clang::ForStmt::getInc',
        'clang::Stmt::getBody', 'clang::ParentMap::getParentIgnoreParens', 'clang::ParentMap::getParentIgnoreParenCasts'}
# overloads of the names above whose contract is non-null
NEVER = {'clang::InjectedClassNameType::getRecordDecl', 'clang::RecordType::getRecordDecl', 'clang::MacroDirective::DefInfo::getMacroInfo', 'clang::PointerType::getPointeeType', 'clang::ReferenceType::getPointeeType', 'clang::MemberPointerType::getPointeeType', 'clang::TypedefType::getDecl', 'clang::CXXCtorInitializer::getInit', 'clang::InitListExpr::getInit', 'clang::LambdaExpr::getBody', 'clang::ForStmt::getBody',
         'clang::CXXForRangeStmt::getBody', 'clang::WhileStmt::getBody', 'clang::DoStmt::getBody', 'clang::NamespaceAliasDecl::getNamespace',
         'clang::UsingDirectiveDecl::getNominatedNamespace', 'clang::BlockExpr::getBody', 'clang::TypedefNameDecl::getTypeSourceInfo',
         'clang::SwitchStmt::getBody', 'clang::ExplicitCastExpr::getTypeInfoAsWritten'}
# statement classes none of whose children can be null
FULL_CHILDREN = ('Expr', 'Operator', 'CompoundStmt', 'Literal', 'CXXTryStmt', 'StmtExpr', 'CallExpr')

# abstract or with optional sub-expressions
SOME_NULL = ('Expr', 'InitListExpr', 'CXXNewExpr', 'LambdaExpr')


def children_of(fn, i, depth=0):
    """the node whose child list the iterator expression i walks, or None"""
    if i is None or i < 0 or depth > 8:
        return None
    n = fn.nodes[i]
    c = n.get('c', [])
    k = n['k']
    if k == 'CXXMemberCallExpr':
        d = fn.decl(n) or {}
        if d.get('n') in ('children', 'child_begin', 'child_end'):
            return n.get('o', -1)
        return children_of(fn, n.get('o', -1), depth + 1)
    if k in ('CXXOperatorCallExpr', 'UnaryOperator', 'ImplicitCastExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CallExpr') and c:
        return children_of(fn, c[0], depth + 1)
    if k == 'DeclRefExpr':
        return children_of(fn, fn.local_init(n.get('d')), depth + 1)
    return None


def stmt_class(t):
    t = t.replace('const', '').replace('*', '').replace('&', '').strip()
    return t.rsplit('::', 1)[-1]


def nullable_call(fn, i, d):
    if not is_nullable_type(fn.type(i)):
        return None
    q = d['q']
    if q in NULQ:
        return True
    if q.startswith('std::') or q in NEVER:
        return None
    if d['n'] in NUL and q.startswith(('clang::', 'llvm::')):
        return True
    if d['n'] == 'operator*' and 'StmtIterator' in q:
        o = children_of(fn, i)
        if o is not None and o >= 0:
            cls = stmt_class(fn.type(o))
            if cls.endswith(FULL_CHILDREN) and cls not in SOME_NULL:
                return None
            on = fn.nodes[o]
            if on['k'] == 'CXXMemberCallExpr' and (fn.decl(on) or {}).get('n') == 'getBody':
                return None
        return 'child statements may be null'
    return None

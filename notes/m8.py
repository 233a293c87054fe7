CHECKS=['P18']
X='FixItExporter.cpp'
M=[
 (X,'auto &diags = getTuDiag','auto diags = getTuDiag','P18'),
 (X,'                llvm::consumeError(std::move(error));\n','','P18'),
 (X,'    if (!isClazyStandalone) {','    if (isClazyStandalone) {','P18'),
 (X,'    if (!isClazyStandalone) {','    {','P18'),
 (X,'DiagLevel == DiagnosticsEngine::Warning)','DiagLevel >= DiagnosticsEngine::Warning)','P18'),
 (X,'    DiagEngine.setClient(this, false);\n}\n\nFixItExporter::~','    DiagEngine.setClient(this, true);\n}\n\nFixItExporter::~','P18'),
 (X,'        m_recordNotes = true;\n','','P18'),
 (X,'        m_recordNotes = false;\n','        m_recordNotes = DiagLevel == DiagnosticsEngine::Remark;\n','P18'),
 (X,'Info.getNumFixItHints(); Idx < Last; ++Idx','Info.getNumFixItHints(); Idx + 1 < Last; ++Idx','P18'),
 (X,'unsigned Idx = 0, Last','unsigned Idx = 1, Last','P18'),
 (X,'SourceMgr.getFileLoc(Info.getLocation())','SourceMgr.getSpellingLoc(Info.getLocation())','P18'),
 (X,'if (Info.getLocation().isMacroID()) {','if (Info.getLocation().isInvalid()) {','P18'),
 (X,"TmpMessageText.find_last_of('[') - 1).str();","TmpMessageText.find_last_of(']') - 1).str();",'P18'),
 (X,"TmpMessageText.find_last_of('[') + 3","TmpMessageText.find_last_of('[') + 2",'P18'),
 (X,"_e = SourceMgr.getSpellingLoc(_e);","",'P18'),
 (X,"clang::Lexer::getLocForEndOfToken(_e, 0, SourceMgr, LangOpts)","_e",'P18'),
 (X,"Fix[replacement.getFilePath()]","Fix[ToolingDiag.Message.FilePath]",'P18'),
 (X,'            clang::tooling::Replacements &Replacements =','            clang::tooling::Replacements Replacements =','P18'),
 (X,'''        Client->HandleDiagnostic(DiagLevel, Info);
    }
''','''        Client->HandleDiagnostic(DiagLevel, Info);
        return;
    }
''','P18'),
 (X,'    // Let original client do it\'s handling\n    if (Client) {','    if (Client && DiagLevel != DiagnosticsEngine::Note) {','P18'),
 (X,'    DiagConsumer::','','' ) if 0 else (X,'    DiagnosticConsumer::HandleDiagnostic(DiagLevel, Info);\n','','P18'),
 (X,'    if (!tuDiag.Diagnostics.empty()) {','    if (tuDiag.Diagnostics.size() > 1) {','P18'),
 (X,'    DiagEngine.setClient(Client, false);\n#if','#if','P18'),
 (X,'    DiagEngine.Report(Loc, DiagID);\n    DiagEngine.setClient(this, false);','    DiagEngine.Report(Loc, DiagID);','P18'),
 (X,'getTuDiag().MainSourceFile = entry ? entry->getName().str() : std::string();','getTuDiag().MainSourceFile = exportFixes;','P18'),
 (X,'        diags.Notes.append(1, diag.Message);','        diags.Notes.append(2, diag.Message);','P18'),
 (X,'    Owner = DiagEngine.takeClient();\n    Client = DiagEngine.getClient();\n    DiagEngine.setClient(this, false);','    Owner = DiagEngine.takeClient();\n    DiagEngine.setClient(this, false);\n    Client = DiagEngine.getClient();','P18'),
 (X,'        DiagEngine.setClient(Client, Owner.release() != nullptr);\n','','P18'),
 ('ClazyContext.cpp','        exporter->Export();\n','','P18'),
 ('Clazy.cpp','    if (m_context->exporter) {\n        m_context->exporter->BeginSourceFile(clang::LangOptions());\n    }\n','','P18'),
 ('Clazy.cpp','''    if (m_context->exporter) {
        m_context->exporter->BeginSourceFile(clang::LangOptions());
    }

    if ((m_context->options & ClazyContext::ClazyOption_OnlyQt) && !m_context->isQt()) {
        return;
    }
''','''    if ((m_context->options & ClazyContext::ClazyOption_OnlyQt) && !m_context->isQt()) {
        return;
    }
    if (m_context->exporter) {
        m_context->exporter->BeginSourceFile(clang::LangOptions());
    }

''','P18'),
 # equivalents
 (X,'for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {\n            const FixItHint &Hint = Info.getFixItHint(Idx);','for (const FixItHint &Hint : Info.getFixItHints()) {',''),
 (X,'''    if (DiagLevel == DiagnosticsEngine::Warning) {
        auto ToolingDiag''','''    if (DiagLevel != DiagnosticsEngine::Warning && DiagLevel != DiagnosticsEngine::Note) {
        m_recordNotes = false;
        return;
    }
    if (DiagLevel == DiagnosticsEngine::Warning) {
        auto ToolingDiag''',''),
 (X,'''        getTuDiag().Diagnostics.push_back(ToolingDiag);
        m_recordNotes = true;''','''        m_recordNotes = true;
        getTuDiag().Diagnostics.push_back(std::move(ToolingDiag));''',''),
 (X,'''            const auto replacement = ConvertFixIt(Hint);
''','''            const clang::tooling::Replacement replacement = ConvertFixIt(Hint);
            const std::string path = replacement.getFilePath().str();
''',''),
 (X,'''Replacements.add(ConvertFixIt(Hint));
            if (error) {''','''Replacements.add(replacement);
            if (error) {''',''),
 (X,'''        auto &diags = getTuDiag().Diagnostics.back();
        auto diag = ConvertDiagnostic(Info);
        diags.Notes.append(1, diag.Message);''','''        getTuDiag().Diagnostics.back().Notes.push_back(ConvertDiagnostic(Info).Message);''',''),
 (X,'''    if (Info.getLocation().isMacroID()) {
        auto MacroLoc = SourceMgr.getFileLoc(Info.getLocation());
        ToolingDiag.Message = tooling::DiagnosticMessage(messageText, SourceMgr, MacroLoc);
    } else {
        ToolingDiag.Message = tooling::DiagnosticMessage(messageText, SourceMgr, Info.getLocation());
    }''','''    SourceLocation Loc = Info.getLocation();
    if (Loc.isMacroID()) {
        Loc = SourceMgr.getFileLoc(Loc);
    }
    ToolingDiag.Message = tooling::DiagnosticMessage(messageText, SourceMgr, Loc);''',''),
 (X,'''    if (Info.getLocation().isMacroID()) {
        auto MacroLoc = SourceMgr.getFileLoc(Info.getLocation());
        ToolingDiag.Message = tooling::DiagnosticMessage(messageText, SourceMgr, MacroLoc);
    } else {
        ToolingDiag.Message = tooling::DiagnosticMessage(messageText, SourceMgr, Info.getLocation());
    }''','''    ToolingDiag.Message = tooling::DiagnosticMessage(messageText, SourceMgr, SourceMgr.getFileLoc(Info.getLocation()));''',''),
 (X,'''    tooling::Replacement Replacement;
    if (Hint.CodeToInsert.empty()) {''','''    if (!Hint.CodeToInsert.empty()) {
        return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
    }
    {''',''),
 (X,'''    auto tuDiag = getTuDiag();
    if (!tuDiag.Diagnostics.empty()) {''','''    const auto &tuDiag = getTuDiag();
    if (tuDiag.Diagnostics.empty()) {
        return;
    }
    {''',''),
 (X,'''        if (Client) {
        Client->HandleDiagnostic''','',''  ) if 0 else (X,'''            if (b.isMacroID()) {
                b = SourceMgr.getSpellingLoc(b);
            }
            if (_e.isMacroID()) {
                _e = SourceMgr.getSpellingLoc(_e);
            }
''','''            b = SourceMgr.getSpellingLoc(b);
            _e = SourceMgr.getSpellingLoc(_e);
''',''),
]

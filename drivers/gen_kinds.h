// The numbers clang gives to the kinds of declarations and statements the generator's contracts mention.
int rrv_kind_Var() { return clang::Decl::Var; }
int rrv_kind_Field() { return clang::Decl::Field; }
int rrv_kind_Function() { return clang::Decl::Function; }
int rrv_kind_CXXRecord() { return clang::Decl::CXXRecord; }
int rrv_kind_ClassTemplateSpecialization() { return clang::Decl::ClassTemplateSpecialization; }
int rrv_kind_Enum() { return clang::Decl::Enum; }
int rrv_kind_Namespace() { return clang::Decl::Namespace; }
int rrv_kind_stmt_IntegerLiteral() { return clang::Stmt::IntegerLiteralClass; }
int rrv_kind_access_public() { return clang::AS_public; }
int rrv_kind_targ_Type() { return clang::TemplateArgument::Type; }
int rrv_kind_level_Error() { return clang::DiagnosticsEngine::Error; }
int rrv_kind_level_Warning() { return clang::DiagnosticsEngine::Warning; }

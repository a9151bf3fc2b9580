// Clang plugin: dump, as JSON, every top-level declaration that does not come
// from a system header.  One JSON document per line group, separated by \x1e.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ASTDumperUtils.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace {
struct Consumer : ASTConsumer {
  std::string Out;
  explicit Consumer(std::string O) : Out(std::move(O)) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    if (EC) return;
    SourceManager &SM = Ctx.getSourceManager();
    for (Decl *D : Ctx.getTranslationUnitDecl()->decls()) {
      if (D->isImplicit()) continue;
      SourceLocation L = SM.getExpansionLoc(D->getLocation());
      if (L.isInvalid() || SM.isInSystemHeader(L)) continue;
      D->dump(OS, false, ADOF_JSON);
      OS << "\n\x1e\n";
    }
    OS << "{\"kind\":\"EOT\"}\n";
  }
};
struct Action : PluginASTAction {
  std::string Out;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>(Out);
  }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &A) override {
    if (!A.empty()) Out = A[0];
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};
}
static FrontendPluginRegistry::Add<Action> X("sadump", "dump non-system AST as JSON");

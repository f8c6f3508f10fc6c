// Stands in for Spp/LlvmCodeGen/llvm_code_gen.h: the front end is compiled without LLVM.
#define SPP_LLVMCODEGEN_LLVMCODEGEN_H
#include "core.h"
namespace Spp::LlvmCodeGen {
class TargetGenerator : public Core::Basic::TiObject { TYPE_INFO(TargetGenerator, TiObject, "Spp.LlvmCodeGen", "Spp", "alusus.org"); };
class BuildTarget : public Core::Basic::TiObject { TYPE_INFO(BuildTarget, TiObject, "Spp.LlvmCodeGen", "Spp", "alusus.org"); };
}
#include "spp.h"

#pragma once
namespace tosca::evmzero::internal {
constexpr auto kCompilerId = "GNU";
constexpr auto kCompilerVersion = "13";
constexpr auto kBuildType = "Verif";
constexpr auto kCompileDefinitions = "";
constexpr auto kCompileOptions = "";
constexpr auto kAssertions = "ON";
constexpr auto kAsan = "OFF";
constexpr auto kMimalloc = "OFF";
constexpr auto kTracy = "OFF";
}  // namespace tosca::evmzero::internal

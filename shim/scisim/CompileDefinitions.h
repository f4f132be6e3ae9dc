// Stand-in for the CMake-generated header (see scisim/CompileDefinitions.h.in).
#ifndef COMPILE_DEFINITIONS_H
#define COMPILE_DEFINITIONS_H
namespace CompileDefinitions
{
  constexpr char GitSHA1[] = "0123456789abcdef0123456789abcdef01234567";
  constexpr char BuildMode[] = "Harness";
  constexpr char CCompiler[] = "gcc";
  constexpr char CXXCompiler[] = "g++";
}
#endif

#pragma once
#define PRAGMA_WARNING_PUSH
#define PRAGMA_WARNING_POP
#define DISABLE_MSVC_WARNING(x)
#define DISABLE_GCC_WARNING(x)
#define DISABLE_CLANG_WARNING(x)
#define DISABLE_GCC_AND_CLANG_WARNING(x)

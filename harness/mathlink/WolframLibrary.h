// stand-in for the Wolfram LibraryLink header (monitoring harness)
#pragma once
#include <cstdint>
#ifdef __cplusplus
#define EXTERN_C extern "C"
#else
#define EXTERN_C extern
#endif
#define DLLEXPORT
#define DLLIMPORT
typedef std::int64_t mint;
typedef double mreal;
typedef int mbool;
struct st_WolframLibraryData;
typedef struct st_WolframLibraryData* WolframLibraryData;
#define WolframLibraryVersion 7
enum {
   LIBRARY_NO_ERROR = 0,
   LIBRARY_TYPE_ERROR,
   LIBRARY_RANK_ERROR,
   LIBRARY_DIMENSION_ERROR,
   LIBRARY_NUMERICAL_ERROR,
   LIBRARY_MEMORY_ERROR,
   LIBRARY_FUNCTION_ERROR,
   LIBRARY_VERSION_ERROR
};

/* Stand-in for Wolfram's WolframLibrary.h */
#pragma once
typedef long mint;
typedef double mreal;
typedef struct st_WolframLibraryData* WolframLibraryData;
#define WolframLibraryVersion 6
#define DLLEXPORT
enum { LIBRARY_NO_ERROR = 0, LIBRARY_TYPE_ERROR, LIBRARY_RANK_ERROR, LIBRARY_DIMENSION_ERROR, LIBRARY_NUMERICAL_ERROR, LIBRARY_MEMORY_ERROR, LIBRARY_FUNCTION_ERROR };

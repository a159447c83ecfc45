// stand-in for MathLink: serves a recorded input expression, records everything put
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct FakeLink* MLINK;
typedef int mlapi_result_;
typedef long long mlint64;
#define MLEOK 0
#define MLEDEAD 1
#define MLEGSEQ 3
#define MLTKERR 0
#define MLTKINT '+'
#define MLTKREAL '*'
#define MLTKSTR '"'
#define MLTKSYM 35
#define MLTKFUNC 'F'

int MLPutSymbol(MLINK, const char*);
int MLPutUTF8Symbol(MLINK, const unsigned char*, int);
int MLPutByteSymbol(MLINK, const unsigned char*, int);
int MLPutString(MLINK, const char*);
int MLPutUTF8String(MLINK, const unsigned char*, int);
int MLPutByteString(MLINK, const unsigned char*, int);
int MLPutInteger(MLINK, int);
int MLPutInteger16(MLINK, int);
int MLPutInteger32(MLINK, int);
int MLPutInteger64(MLINK, mlint64);
int MLPutLongInteger(MLINK, long);
int MLPutReal(MLINK, double);
int MLPutReal64(MLINK, double);
int MLPutDouble(MLINK, double);
int MLPutFunction(MLINK, const char*, int);
int MLPutUTF8Function(MLINK, const unsigned char*, int, int);
int MLPutNext(MLINK, int);
int MLPutArgCount(MLINK, int);
int MLPutRealList(MLINK, const double*, int);
int MLPutReal64List(MLINK, const double*, int);
int MLPutInteger32List(MLINK, const int*, int);
int MLPutIntegerList(MLINK, const int*, int);
int MLPutDoubleArray(MLINK, const double*, const long*, const char**, long);
int MLPutReal64Array(MLINK, const double*, const int*, const char**, int);
int MLCheckFunction(MLINK, const char*, long*);
int MLTestHead(MLINK, const char*, int*);
int MLTestHeadWithArgCount(MLINK, const char*, int*);
int MLCheckFunctionWithArgCount(MLINK, const char*, long*);
int MLGetFunction(MLINK, const char**, int*);
int MLGetNext(MLINK);
int MLGetType(MLINK);
int MLGetArgCount(MLINK, int*);
int MLGetReal(MLINK, double*);
int MLGetReal64(MLINK, double*);
int MLGetDouble(MLINK, double*);
int MLGetInteger(MLINK, int*);
int MLGetInteger32(MLINK, int*);
int MLGetReal64List(MLINK, double**, int*);
void MLReleaseReal64List(MLINK, double*, int);
int MLGetRealList(MLINK, double**, long*);
void MLDisownRealList(MLINK, double*, long);
int MLGetSymbol(MLINK, const char**);
void MLReleaseSymbol(MLINK, const char*);
int MLNewPacket(MLINK);
int MLEndPacket(MLINK);
int MLFlush(MLINK);
int MLReady(MLINK);
int MLError(MLINK);
int MLClearError(MLINK);
const char* MLErrorMessage(MLINK);
void MLReleaseErrorMessage(MLINK, const char*);
#ifdef __cplusplus
}
#endif

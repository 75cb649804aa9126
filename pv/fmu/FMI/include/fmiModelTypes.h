/* stand-in for the header of the FMI standard 1.0: the types the generated code uses */
#ifndef fmiModelTypes_h
#define fmiModelTypes_h
typedef void* fmiComponent;
typedef unsigned int fmiValueReference;
typedef double fmiReal;
typedef int fmiInteger;
typedef char fmiBoolean;
typedef const char* fmiString;
#define fmiTrue 1
#define fmiFalse 0
#endif
